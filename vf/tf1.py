"""TensorFlow 1 interface over the installed TensorFlow 2: must be imported before anything of the neural part."""
import importlib
import os
import sys
import types

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')


class _Proxy(types.ModuleType):
    def __init__(self, name, base, **over):
        super().__init__(name)
        self.__dict__['_base'] = base
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_base'], name)


def install():
    if isinstance(sys.modules.get('tensorflow'), _Proxy):
        return sys.modules['tensorflow']
    real = importlib.import_module('tensorflow')
    import tensorflow.compat.v1 as tf1
    tf1.disable_v2_behavior()
    tf1.logging.set_verbosity(tf1.logging.FATAL)
    from tensorflow.python.keras.legacy_tf_layers import core
    from tensorflow.python.keras.layers.legacy_rnn import rnn_cell_impl

    class Session(tf1.Session):
        """one thread: cheap to create in many workers, and the order of float additions is fixed"""

        def __init__(self, target='', graph=None, config=None):
            if config is None:
                config = tf1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
            super().__init__(target, graph, config)

    nn = _Proxy('tensorflow.nn', tf1.nn, rnn_cell=types.SimpleNamespace(LSTMCell=rnn_cell_impl.LSTMCell))
    tf = _Proxy('tensorflow', tf1, layers=types.SimpleNamespace(dense=core.dense, dropout=core.dropout), nn=nn, Session=Session)
    tf.__path__ = real.__path__
    tf.__spec__ = real.__spec__
    sys.modules['tensorflow'] = tf
    return tf
