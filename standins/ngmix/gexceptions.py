class NGmixBaseException(Exception):
    def __init__(self, value):
        super().__init__(value)
        self.value = value

    def __str__(self):
        return repr(self.value)


class GMixRangeError(NGmixBaseException):
    """a parameter was out of range"""


class GMixFatalError(NGmixBaseException):
    """a fatal error, e.g. no weights > 0"""


class GMixMaxIterEM(NGmixBaseException):
    pass


class BootGalFailure(NGmixBaseException):
    pass


class BootPSFFailure(NGmixBaseException):
    pass


class PSFFluxFailure(NGmixBaseException):
    pass


class FFTRangeError(NGmixBaseException):
    pass
