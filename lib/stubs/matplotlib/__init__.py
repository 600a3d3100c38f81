from . import pylab, pyplot
