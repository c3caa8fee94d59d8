"""stand-in for lsst.pipe.base"""
import logging
from types import SimpleNamespace


class TaskError(Exception):
    pass


class Struct(SimpleNamespace):
    def getDict(self):
        return dict(self.__dict__)

    def mergeItems(self, struct, *names):
        for n in names:
            setattr(self, n, getattr(struct, n))


class _Log(logging.LoggerAdapter):
    """python logger that also keeps the old spellings"""

    def __init__(self, logger):
        super().__init__(logger, {})

    def warn(self, msg, *args, **kw):
        self.warning(msg, *args, **kw)

    def verbose(self, msg, *args, **kw):
        self.info(msg, *args, **kw)

    def getChild(self, name):
        return _Log(self.logger.getChild(name))


class Task:
    ConfigClass = None
    _DefaultName = None

    def __init__(self, config=None, name=None, parentTask=None, log=None):
        self.metadata = {}
        self._parentTask = parentTask
        if parentTask is not None:
            if name is None:
                raise RuntimeError("name is required for a subtask")
            self._name = name
            self._fullName = parentTask._fullName + "." + name
            if config is None:
                config = getattr(parentTask.config, name).value
        else:
            if name is None:
                name = getattr(self, "_DefaultName", None)
                if name is None:
                    raise RuntimeError(
                        "name is required for a task unless it has attribute "
                        "_DefaultName")
            self._name = name
            self._fullName = name
            if config is None:
                config = self.ConfigClass()
        self.config = config
        self.log = _Log(logging.getLogger("lsst." + self._fullName))

    def emptyMetadata(self):
        self.metadata = {}

    def getName(self):
        return self._name

    def getFullName(self):
        return self._fullName

    def makeSubtask(self, name, **kw):
        field = getattr(self.config, name, None)
        if field is None:
            raise KeyError("%s's config does not have field %r" % (
                self._fullName, name))
        setattr(self, name, field.apply(name=name, parentTask=self, **kw))

    def timer(self, name, logLevel=None):
        import contextlib
        return contextlib.nullcontext()


class PipelineTask(Task):
    pass
