from . import vals, engine, interp
engine.VC.path_class = interp.Interp
from . import lib
