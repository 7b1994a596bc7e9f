"""Types, schemas, tables, databases and components."""
import build
import native


def run(ck):
    ck.rule = ('random types, schemas, tables, and histories of a catalog and of a set of components, every public observation compared with a model of what was declared; '
               'a case is one pair of types, one group of schemas, one pair of tables or one history, non-trivial when it declares more than one thing')
    native.modes(ck, build.build('meta', 'meta.cpp'), [('types', 4, ck.n(20000, 400000)), ('schemas', 16, ck.n(1500, 30000)), ('tables', 4, ck.n(6000, 100000)),
                                                       ('databases', 16, ck.n(500, 10000)), ('components', 4, ck.n(3000, 60000))], timeout=ck.n(300, 3000))
