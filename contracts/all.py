from . import scoring_formulas
from . import scoring_chain
