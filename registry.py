"""The properties: statement, anchors and how each is decided. gen.py writes properties.jsonl and MANIFEST.json from this."""
PROPS = {}
NA = {}

TECH = 'abstract interpretation of rustc MIR (path facts and symbolic values)'


def prop(id, title, statement, over, qtext, why, files, mech, module, rule, note, state=(), observe=(), technique=TECH, floor=1, assumptions=(), level='other'):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                     observe=observe, module=module, rule=rule, note=note, technique=technique, floor=floor, assumptions=list(assumptions), level=level)


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=(), observe=(), reason=reason)


STATIC_NOTE = ('Sound up to the models in engine/models.py: every control-flow path of the analysed functions is covered (branches are joined, '
               'loops are abstracted), helpers are inlined through resolved calls, and the obligation must hold on every exit. ')

from props_sign import *   # noqa
from props_vss import *    # noqa
from props_dkg import *    # noqa
from props_poly import *   # noqa
from props_crypto import *  # noqa
from props_group import *  # noqa
from props_cross import *  # noqa
