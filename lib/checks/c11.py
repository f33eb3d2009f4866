"""C11: the logtype."""
from logcheck import *
from checks import views


@guard
def main():
    return views.run('C11', ['lt'], ('lt',), 'the logtype is not the static text with variables replaced by their names')
