from .c02 import check as layouts
def check(c): layouts(c, True)
