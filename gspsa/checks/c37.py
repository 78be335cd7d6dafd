"""C37: everything the packages refer to exists."""
from ..lint import rules

PROPERTY = "C37"
FLOOR = 2500
TECHNIQUE = "static name, attribute, import and call-arity resolution over the syntax tree in the module and class tables of an abstract interpretation"
EXPLANATION = (
    "Every module of both packages is imported in the abstract interpreter, which gives the names each module finally has (star imports, "
    "conditional definitions, decorators and aliases included) and the bases of each class. Over the syntax tree of every function, lambda and "
    "class body: each name read is a local, a name of an enclosing function, a name the module has, or a builtin; each local is bound by some "
    "path before it is read; each imported symbol and each attribute of a module or class (also numpy and matplotlib) exists; each attribute read "
    "on self is defined by the class, a base, a derived class, or assigned somewhere; each call of a function, method or class of the library "
    "fits its parameters.")
RULES = [rules]
