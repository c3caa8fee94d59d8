"""stand-in for lsst.pex.config: typed, freezable, nestable configuration"""
import copy
import functools


class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        self.field = field
        self.fieldName = getattr(field, "name", None)
        self.config = config
        super().__init__(
            "Field '%s' of %s: %s" % (
                self.fieldName, type(config).__name__, msg))


class Field:
    """a scalar"""
    supported = (str, int, float, bool, complex)

    def __class_getitem__(cls, param):
        return functools.partial(cls, _param=param)

    def __init__(self, doc, dtype=None, default=None, check=None,
                 optional=None, deprecated=None, _param=None):
        self.doc = doc
        self.dtype = dtype if dtype is not None else _param
        self.default = default
        self.check = check
        if optional is None:
            optional = False
        self.optional = optional
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        return instance._storage[self.name]

    def __set__(self, instance, value):
        self._guard(instance)
        if value is not None:
            value = self._cast(value, instance)
            if self.check is not None and not self.check(value):
                raise FieldValidationError(
                    self, instance, "%r is not a valid value" % (value,))
        instance._storage[self.name] = value

    def _guard(self, instance):
        if instance._frozen:
            raise FieldValidationError(
                self, instance, "Cannot modify a frozen Config")

    def _cast(self, value, instance):
        dt = self.dtype
        if dt is None or isinstance(value, dt):
            if dt is int and isinstance(value, bool):
                pass
            return value
        if dt is float and isinstance(value, int):
            return float(value)
        raise FieldValidationError(
            self, instance, "Value %r is of incorrect type %s. Expected %s" % (
                value, type(value).__name__, dt.__name__))

    def init(self, instance):
        d = self.default
        if d is not None:
            d = self._cast(copy.deepcopy(d), instance)
        instance._storage[self.name] = d

    def toDict(self, instance):
        return copy.deepcopy(instance._storage[self.name])

    def validate(self, instance):
        v = instance._storage[self.name]
        if v is None and not self.optional:
            raise FieldValidationError(
                self, instance, "Required value cannot be None")

    def freeze(self, instance):
        pass


class RangeField(Field):
    def __init__(self, doc, dtype=None, default=None, optional=None, min=None,
                 max=None, inclusiveMin=True, inclusiveMax=False, **kw):
        def check(v):
            ok = True
            if min is not None:
                ok = ok and (v >= min if inclusiveMin else v > min)
            if max is not None:
                ok = ok and (v <= max if inclusiveMax else v < max)
            return ok
        super().__init__(doc, dtype=dtype, default=default,
                         optional=optional, check=check, **kw)


class ChoiceField(Field):
    def __init__(self, doc, dtype=None, allowed=None, default=None,
                 optional=None, deprecated=None, _param=None):
        self.allowed = dict(allowed)
        if optional is None:
            optional = True
        super().__init__(doc, dtype=dtype, default=default, optional=optional,
                         check=lambda v: v in self.allowed, _param=_param)


class ListField(Field):
    def __init__(self, doc, dtype=None, default=None, optional=None,
                 listCheck=None, itemCheck=None, length=None, minLength=None,
                 maxLength=None, deprecated=None, _param=None):
        self.itemtype = dtype if dtype is not None else _param
        self.itemCheck = itemCheck
        self.listCheck = listCheck
        super().__init__(doc, dtype=None, default=default, optional=optional)

    def _cast(self, value, instance):
        if isinstance(value, (str, bytes)):
            raise FieldValidationError(
                self, instance, "expected a sequence of items, not a string")
        try:
            items = list(value)
        except TypeError:
            raise FieldValidationError(
                self, instance, "expected a sequence, got %r" % (value,))
        for v in items:
            if self.itemtype is not None and not isinstance(v, self.itemtype):
                if not (self.itemtype is float and isinstance(v, int)):
                    raise FieldValidationError(
                        self, instance, "item %r of incorrect type" % (v,))
        return List(items, self, instance)

    def toDict(self, instance):
        v = instance._storage[self.name]
        return None if v is None else list(v)


class List(list):
    """the list held by a ListField; refuses edits once frozen"""

    def __init__(self, items, field, config):
        super().__init__(items)
        self._field = field
        self._config = config

    def _g(self):
        if self._config._frozen:
            raise FieldValidationError(
                self._field, self._config, "Cannot modify a frozen Config")

    def append(self, v):
        self._g()
        super().append(v)

    def extend(self, v):
        self._g()
        super().extend(v)

    def insert(self, i, v):
        self._g()
        super().insert(i, v)

    def remove(self, v):
        self._g()
        super().remove(v)

    def __setitem__(self, i, v):
        self._g()
        super().__setitem__(i, v)

    def __delitem__(self, i):
        self._g()
        super().__delitem__(i)

    def __deepcopy__(self, memo):
        return [copy.deepcopy(v, memo) for v in self]

    def __reduce__(self):
        return (list, (list(self),))


class DictField(Field):
    def __init__(self, doc, keytype=None, itemtype=None, default=None,
                 optional=None, **kw):
        super().__init__(doc, dtype=dict, default=default or {},
                         optional=optional)


class ConfigField(Field):
    def __init__(self, doc, dtype=None, default=None, check=None,
                 deprecated=None, _param=None):
        super().__init__(doc, dtype=dtype, default=default, check=check,
                         _param=_param)

    def init(self, instance):
        v = self.dtype()
        if self.default is not None and isinstance(self.default, Config):
            v = self.default.copy()
        instance._storage[self.name] = v

    def __set__(self, instance, value):
        self._guard(instance)
        if isinstance(value, type) and issubclass(value, self.dtype):
            value = value()
        if not isinstance(value, self.dtype):
            raise FieldValidationError(
                self, instance, "Value %r is of incorrect type %s" % (
                    value, type(value).__name__))
        instance._storage[self.name] = value.copy()

    def toDict(self, instance):
        return instance._storage[self.name].toDict()

    def validate(self, instance):
        instance._storage[self.name].validate()

    def freeze(self, instance):
        instance._storage[self.name].freeze()


class ConfigurableInstance:
    """a retargetable task and its configuration"""

    def __init__(self, config, field):
        s = object.__setattr__
        s(self, "_config_parent", config)
        s(self, "_field", field)
        s(self, "_target", field.target)
        s(self, "_ConfigClass", field.ConfigClass)
        s(self, "_value", None)

    def __initValue(self):
        v = self._ConfigClass()
        object.__setattr__(self, "_value", v)

    @property
    def target(self):
        return self._target

    @property
    def ConfigClass(self):
        return self._ConfigClass

    @property
    def value(self):
        if self._value is None:
            self.__initValue()
        return self._value

    def apply(self, *args, **kw):
        return self.target(*args, config=self.value, **kw)

    def retarget(self, target, ConfigClass=None):
        if self._config_parent._frozen:
            raise FieldValidationError(
                self._field, self._config_parent,
                "Cannot modify a frozen Config")
        object.__setattr__(self, "_target", target)
        object.__setattr__(
            self, "_ConfigClass", ConfigClass or target.ConfigClass)
        object.__setattr__(self, "_value", None)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.value, name)

    def __setattr__(self, name, value):
        if self._config_parent._frozen:
            raise FieldValidationError(
                self._field, self._config_parent,
                "Cannot modify a frozen Config")
        setattr(self.value, name, value)


class ConfigurableField(Field):
    def __init__(self, doc, target, ConfigClass=None, default=None,
                 check=None, deprecated=None, _param=None):
        super().__init__(doc)
        self.target = target
        self.ConfigClass = ConfigClass or target.ConfigClass
        self.default = default or self.ConfigClass

    def init(self, instance):
        instance._storage[self.name] = ConfigurableInstance(instance, self)

    def __set__(self, instance, value):
        self._guard(instance)
        inst = instance._storage[self.name]
        if isinstance(value, ConfigurableInstance):
            inst.retarget(value.target, value.ConfigClass)
            object.__setattr__(inst, "_value", value.value.copy())
        elif isinstance(value, inst._ConfigClass):
            object.__setattr__(inst, "_value", value.copy())
        elif isinstance(value, type) and issubclass(value, inst._ConfigClass):
            object.__setattr__(inst, "_value", value())
        else:
            # the repository assigns configurations of the base class to
            # fields whose class it has replaced
            if isinstance(value, Config):
                object.__setattr__(inst, "_value", value.copy())
            else:
                raise FieldValidationError(
                    self, instance, "Value %r is of incorrect type %s" % (
                        value, type(value).__name__))

    def toDict(self, instance):
        return instance._storage[self.name].value.toDict()

    def validate(self, instance):
        instance._storage[self.name].value.validate()

    def freeze(self, instance):
        instance._storage[self.name].value.freeze()


class Plugins:
    """registry of algorithm configurations with the selected names"""

    def __init__(self, available, names):
        self._available = available
        self._cfg = {}
        self._names = list(names)
        self._frozen = False

    @property
    def names(self):
        return self._names

    @names.setter
    def names(self, value):
        for n in value:
            if n not in self._available:
                raise KeyError("Unknown key %r in Registry" % n)
        self._names = list(value)

    def __getitem__(self, name):
        if name not in self._available:
            raise KeyError("Unknown key %r in Registry" % name)
        if name not in self._cfg:
            self._cfg[name] = self._available[name]()
        return self._cfg[name]

    def __contains__(self, name):
        return name in self._available

    def toDict(self):
        return {n: self[n].toDict() for n in self._available}


class RegistryField(Field):
    def __init__(self, doc, available, default=()):
        super().__init__(doc)
        self.available = available
        self.names = default

    def init(self, instance):
        instance._storage[self.name] = Plugins(self.available, self.names)

    def __set__(self, instance, value):
        self._guard(instance)
        instance._storage[self.name].names = value

    def toDict(self, instance):
        return instance._storage[self.name].toDict()

    def validate(self, instance):
        pass


class ConfigMeta(type):
    def __init__(cls, name, bases, ns):
        super().__init__(name, bases, ns)
        fields = {}
        for b in reversed(cls.__mro__):
            for k, v in vars(b).items():
                if isinstance(v, Field):
                    fields[k] = v
                    if v.name is None:
                        v.name = k
        type.__setattr__(cls, "_fields", fields)


class Config(metaclass=ConfigMeta):
    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        s = object.__setattr__
        s(self, "_storage", {})
        s(self, "_frozen", False)
        for f in cls._fields.values():
            f.init(self)
        self.setDefaults()
        self.update(**kw)
        return self

    def __init__(self, *args, **kw):
        pass

    def __setattr__(self, name, value):
        if name in self._fields:
            self._fields[name].__set__(self, value)
        elif hasattr(getattr(self.__class__, name, None), "__set__"):
            object.__setattr__(self, name, value)
        elif name.startswith("_"):
            object.__setattr__(self, name, value)
        else:
            raise AttributeError(
                "%s has no attribute %s" % (self.__class__.__name__, name))

    def setDefaults(self):
        pass

    def update(self, **kw):
        for k, v in kw.items():
            if k not in self._fields:
                raise KeyError("No field of name %s exists" % k)
            setattr(self, k, v)

    def keys(self):
        return list(self._fields)

    def items(self):
        return [(k, getattr(self, k)) for k in self._fields]

    def __iter__(self):
        return iter(self._fields)

    def __contains__(self, name):
        return name in self._fields

    def copy(self):
        new = type(self)()
        for k, f in self._fields.items():
            v = self._storage[k]
            if isinstance(v, ConfigurableInstance):
                n = ConfigurableInstance(new, f)
                object.__setattr__(n, "_target", v._target)
                object.__setattr__(n, "_ConfigClass", v._ConfigClass)
                object.__setattr__(n, "_value", v.value.copy())
                new._storage[k] = n
            elif isinstance(v, Config):
                new._storage[k] = v.copy()
            elif isinstance(v, Plugins):
                n = Plugins(v._available, v._names)
                n._cfg = {kk: c.copy() for kk, c in v._cfg.items()}
                new._storage[k] = n
            elif isinstance(v, List):
                new._storage[k] = List(list(v), f, new)
            else:
                new._storage[k] = copy.deepcopy(v)
        return new

    def freeze(self):
        object.__setattr__(self, "_frozen", True)
        for f in self._fields.values():
            f.freeze(self)

    def validate(self):
        for f in self._fields.values():
            f.validate(self)

    def toDict(self):
        return {k: f.toDict(self) for k, f in self._fields.items()}

    def __eq__(self, other):
        return type(self) is type(other) and self.toDict() == other.toDict()

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def compare(self, other, shortcut=True, rtol=1e-8, atol=1e-8, output=None):
        return self == other


def makeConfigClass(*a, **k):
    raise NotImplementedError("stand-in: makeConfigClass")
