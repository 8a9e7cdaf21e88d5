class Undecided(Exception):
    """the harness could not exercise the code on this case"""
