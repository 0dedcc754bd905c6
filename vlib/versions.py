"""What a Minecraft version has to offer, and the judgement that generated
commands use nothing else. Independent of the compiler's own gates.

Facts (Bedrock Edition):
- since 1.19.70 `summon TYPE POS` takes a rotation before the event;
  before that it takes none
- since 1.19.80 selectors know `haspermission`
- since 1.19.80 the section sign codes h i j m n p q s t u are colors
- since 1.20.10 block states are written `"key"=value`, before that
  `"key":value`
"""
import re
from . import dom

ROTATION = (1, 19, 70)
PERMISSION = (1, 19, 80)
MATERIAL = (1, 19, 80)
STATES = (1, 20, 10)

_num = r"[~^]?-?[0-9.]+|[~^]"
_summon = re.compile(r"(?:^| )summon (\S+)((?: (?:%s))*)(.*)$" % _num)
_states = re.compile(r'\[("[^"]*"\s*([=:]).*?)\]')
_block = re.compile(
    r"(?:^| )(setblock|fill|clone|testforblock|if block|unless block) ")
_perm = re.compile(r"\[[^\]]*\bhaspermission\s*=")
_material = re.compile("(?:\xa7|\\\\u00[aA]7)[hijmnpqstu]")


def ge(v, t):
    """Formula: version v (components may be symbolic) is at least t."""
    lt, eq = False, True
    for i, want in enumerate(t):
        x = v[i] if i < len(v) else 0
        x = getattr(x, "e", x)
        lt = dom.or_(lt, dom.and_(eq, x < want))
        eq = dom.and_(eq, x == want)
    return dom.not_(lt)


def needs(line):
    """[(version, newer?, what)] of one command."""
    out = []
    line = line.lstrip("/")
    if line.startswith("#"):
        return out
    m = _summon.search(line)
    if m and '"' not in line[:m.start()]:
        n = len(m.group(2).split())
        if n in (3, 5):
            out.append((ROTATION, n == 5, "summon %s rotation" % (
                "with" if n == 5 else "without")))
    if _block.search(line):
        for m in _states.finditer(line):
            out.append((STATES, m.group(2) == "=",
                        "block states with " + m.group(2)))
    if _perm.search(line):
        out.append((PERMISSION, True, "haspermission"))
    if _material.search(line):
        out.append((MATERIAL, True, "material color"))
    return out


def judge(w, version):
    for path, lines in sorted(w.files.items()):
        for line in lines:
            for t, newer, what in needs(line):
                ok = ge(version, t)
                if not newer:
                    ok = dom.not_(ok)
                if ok is not True:
                    w.problems.append((dom.not_(ok), "%s is not in the "
                                       "target version: %s" % (what, line)))
