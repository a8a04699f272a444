"""The documented stop words (the list zope.index ships)."""

WORDS = frozenset("""
a and are as at be but by for if in into is it no not of on or such that the
their then there these they this to was will with
""".split())
