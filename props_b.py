from checks import *  # noqa
