from .. import textprog

RULE = "a generated unit system in which every base dimension has a unit, and eight quantities, written as YAML and JSON and read as the same type and as one of another dimension; non-trivial if some quantity has a dimension"


def run(rep):
    textprog.run(rep, "write", 160, 4000)


def replay(f):
    return textprog.replay(f, "write")
