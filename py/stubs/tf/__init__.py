from . import transformations
