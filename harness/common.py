# Helpers shared by the harnesses (Python 2, executed both symbolically and,
# for replays, by Jython on the real code).


def is_value_error(o):
    return o[0] == 'exc' and isinstance(o[1], ValueError)
