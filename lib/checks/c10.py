"""C10: timestamp, variables, multi-line flag."""
from logcheck import *
from checks import views


@guard
def main():
    return views.run('C10', ['ts', 'vars', 'ml', 'same'], ('ts', 'vars', 'ml'),
                     'timestamp, variables or multi-line flag do not describe the event')
