"""The front end: grammar, printing, robustness, semantic analysis, normal forms."""
import build


def binary(_=None):
    return build.build('front', 'front.cpp')
