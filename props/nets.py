"""Keras networks used by the whole-network properties (loaded in worker processes only)."""
import keras
from keras import layers as L


def _seq(n, *ls):
    return keras.Sequential([keras.Input((n,))] + list(ls))


def mlp(n, *units, act="relu", last=None, bias=True):
    def f():
        ls = [L.Dense(u, activation=act, use_bias=bias) for u in units[:-1]] + [L.Dense(units[-1], activation=last)]
        return _seq(n, *ls)

    f.__name__ = f"mlp {n}-{'-'.join(map(str, units))} {act} {last}"
    return f


def named(name):
    def deco(f):
        f.__name__ = name
        return f

    return deco


def _fun(n, body):
    i = keras.Input((n,))
    return keras.Model(i, body(i))


NETS = {}


def net(n_in, name=None):
    def deco(f):
        def make():
            return _fun(n_in, f)

        make.__name__ = name or f.__name__
        NETS[make.__name__] = (n_in, make)
        return f

    return deco


def seq(name, n_in, *mk):
    def make():
        return _seq(n_in, *[m() for m in mk])

    make.__name__ = name
    NETS[name] = (n_in, make)


seq("relu layers", 2, lambda: L.Dense(2), lambda: L.Activation("relu"), lambda: L.Dense(2), lambda: L.Activation("relu"), lambda: L.Dense(1))
seq("first relu", 2, lambda: L.Activation("relu"), lambda: L.Dense(2))
NETS["relu"] = (2, mlp(2, 2, 2))
NETS["relu3"] = (2, mlp(2, 2, 2, 3))
seq("last relu", 2, lambda: L.Dense(2, activation="relu"))
seq("linear", 2, lambda: L.Dense(2), lambda: L.Activation("linear"), lambda: L.Dense(2))
seq("conv", 4, lambda: L.Reshape((2, 2, 1)), lambda: L.Conv2D(2, 2, padding="same", activation="relu"), lambda: L.Flatten(),
    lambda: L.Dense(2))
seq("conv valid strides", 6, lambda: L.Reshape((3, 2, 1)), lambda: L.Conv2D(2, 2, strides=(1, 1)), lambda: L.Activation("relu"),
    lambda: L.Flatten(), lambda: L.Dense(1))
seq("batchnorm", 2, lambda: L.Dense(3), lambda: L.BatchNormalization(), lambda: L.Activation("relu"), lambda: L.Dense(2))
seq("reshape permute", 4, lambda: L.Dense(4, activation="relu"), lambda: L.Reshape((2, 2)), lambda: L.Permute((2, 1)),
    lambda: L.Flatten(), lambda: L.Dense(2))
seq("flatten channels_first", 4, lambda: L.Dense(4, activation="relu"), lambda: L.Reshape((2, 1, 2)),
    lambda: L.Flatten(data_format="channels_first"), lambda: L.Dense(2))
seq("flatten channels_first 2", 6, lambda: L.Reshape((2, 3)), lambda: L.Activation("relu"),
    lambda: L.Flatten(data_format="channels_first"), lambda: L.Dense(2))
seq("batchnorm on matrix", 4, lambda: L.Reshape((2, 2)), lambda: L.BatchNormalization(), lambda: L.Activation("relu"), lambda: L.Flatten(),
    lambda: L.Dense(2))
seq("batchnorm axis 1", 4, lambda: L.Reshape((2, 2)), lambda: L.BatchNormalization(axis=1), lambda: L.Activation("relu"), lambda: L.Flatten(),
    lambda: L.Dense(2))
seq("permute first", 4, lambda: L.Reshape((2, 2)), lambda: L.Permute((2, 1)), lambda: L.Activation("relu"), lambda: L.Flatten(),
    lambda: L.Dense(2))
seq("permute 3", 6, lambda: L.Reshape((1, 2, 3)), lambda: L.Permute((3, 1, 2)), lambda: L.Activation("relu"), lambda: L.Flatten(),
    lambda: L.Dense(2))
seq("matrix output", 4, lambda: L.Reshape((2, 2)), lambda: L.Dense(2), lambda: L.Activation("relu"))
seq("conv output", 4, lambda: L.Dense(4, activation="relu"), lambda: L.Reshape((2, 2, 1)), lambda: L.Conv2D(1, 2, padding="same"))
seq("dropout", 2, lambda: L.Dense(3, activation="relu"), lambda: L.Dropout(0.5), lambda: L.Dense(1))
seq("maxpool", 4, lambda: L.Dense(4), lambda: L.Reshape((2, 2, 1)), lambda: L.MaxPooling2D((2, 2)), lambda: L.Flatten(), lambda: L.Dense(2))
seq("dense on matrix", 4, lambda: L.Reshape((2, 2)), lambda: L.Dense(2, activation="relu"), lambda: L.Flatten(), lambda: L.Dense(1))


@net(2)
def add_skip(x):
    h = L.Dense(2, activation="relu")(x)
    g = L.Dense(2)(h)
    return L.Dense(1)(L.Add()([h, g]))


@net(2)
def skip_depths(x):
    h = L.Dense(2, activation="relu")(x)
    g = L.Dense(2, activation="relu")(h)
    k = L.Dense(2)(g)
    return L.Add()([x, h, k])


@net(2)
def subtract_relu(x):
    a = L.Dense(2, activation="relu")(x)
    b = L.Dense(2, activation="relu")(x)
    return L.Subtract()([a, b])


@net(2)
def minmax(x):
    a, b, c = L.Dense(1)(x), L.Dense(1)(x), L.Dense(1)(x)
    return L.Minimum()([L.Maximum()([a, b]), c])


@net(2)
def average_concat(x):
    a, b = L.Dense(2, activation="relu")(x), L.Dense(2)(x)
    return L.Dense(1)(L.Concatenate()([L.Average()([a, b]), b]))


@net(2)
def multiply(x):
    a, b = L.Dense(2)(x), L.Dense(2, activation="relu")(x)
    return L.Multiply()([a, b])


@net(2)
def dot(x):
    a, b = L.Dense(2)(x), L.Dense(2)(x)
    return L.Dot(axes=1)([a, b])


@net(2)
def shared_layer(x):
    d = L.Dense(2, activation="relu")
    return L.Dense(1)(d(d(x)))


@net(2)
def shared_twice(x):
    d = L.Dense(2)
    a, b = d(x), d(L.Activation("relu")(x))
    return L.Subtract()([a, b])


@net(2)
def shared_activation(x):
    r = L.Activation("relu")
    a = r(L.Dense(2)(x))
    return r(L.Dense(2)(a))


@net(2)
def nested(x):
    i = keras.Input((2,))
    sub = keras.Model(i, L.Dense(2, activation="relu")(L.Dense(2)(i)))
    return L.Dense(1)(sub(x))


@net(2)
def nested_seq(x):
    sub = keras.Sequential([keras.Input((2,)), L.Dense(3, activation="relu"), L.Dense(2)])
    return sub(L.Activation("relu")(x))


@net(2)
def nested_first(x):
    sub = keras.Sequential([keras.Input((2,)), L.Dense(3, activation="relu"), L.Dense(2)])
    return L.Dense(2, activation="relu")(sub(x))


@net(2)
def nested_twice(x):
    sub = keras.Sequential([keras.Input((2,)), L.Dense(2, activation="relu")])
    return L.Dense(1)(sub(sub(x)))


@net(2)
def two_heads(x):
    h = L.Dense(2, activation="relu")(x)
    return [L.Dense(1)(h), L.Dense(2)(h)]


@net(2)
def two_heads_depths(x):
    h = L.Dense(2, activation="relu")(x)
    return [L.Dense(2, activation="relu")(L.Dense(2)(h)), L.Dense(1)(h)]


@net(2)
def intermediate_output(x):
    h = L.Dense(2, activation="relu")(x)
    return [L.Dense(1)(h), h]


@net(2)
def intermediate_first(x):
    h = L.Dense(2, activation="relu")(x)
    return [h, L.Dense(1)(h)]


@net(2)
def shared_outputs(x):
    d = L.Dense(1)
    h = L.Dense(2, activation="relu")(x)
    return [d(h), d(x)]
