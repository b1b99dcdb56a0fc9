"""Values as Python expressions."""
import ast
from harness.lib import reload
import sangfroid
import sangfroid.value as v

BOUNDS = (
    'each type of value; numbers: any multiple of 2^-10 up to +-100000 '
    '(integers to 10^9); colours: one channel at a time, any multiple of '
    '2^-12; gradients of 2 colours at multiples of 1/64; transformations '
    'with any offset and angle; texts of up to 3 characters among '
    'letters, quotes, backslash, newline and e-acute; blend methods: all 24, '
    'and numbers which are none of them; times of up to +-10^6 frames')
ASSUMPTIONS = ['values which are not animated; times outside a document',
               'v stands for sangfroid.value, as in the source of the layers']


def cells(tier):
    out = []
    for t in ['Real', 'Integer', 'Bool', 'Angle', 'Time', 'X_Y', 'Gradient',
              'Transformation', 'String', 'BlendMethod']:
        for back in [False, True]:
            out.append({'t': t, 'back': back})
    for i in range(4):
        out.append({'t': 'Color', 'i': i, 'back': False})
        out.append({'t': 'Color', 'i': i, 'back': True})
    return out


def numbers(text):
    """The numbers of '(1.0, 2.0)'."""
    text = text.strip()
    if not (text.startswith('(') and text.endswith(')')):
        raise SyntaxError(text)
    return tuple(float(x) for x in text[1:-1].split(','))


def literal(t, text):
    """What Python makes of the expression."""
    text = text.strip()
    if t in ('Real', 'Angle'):
        return float(text)
    if t == 'Integer':
        return int(text)
    if t == 'Bool':
        return {'True': True, 'False': False}[text]
    if t in ('X_Y', 'Color'):
        return numbers(text)
    if t == 'Time':
        if text == '0':
            return 0
        if text[0] != text[-1] or text[0] not in '\'"':
            raise SyntaxError(text)
        return text[1:-1]
    if t == 'BlendMethod':
        if text.startswith('v.BlendMethod.'):
            return getattr(v.BlendMethod, text[len('v.BlendMethod.'):])
        return int(text)
    if t == 'String':
        return ast.literal_eval(text)
    if not (text.startswith('{') and text.endswith('}')):
        raise SyntaxError(text)
    # neither spaces nor which quotes they are matter
    text = ''.join(text[1:-1].split()).replace('"', "'")
    if text.endswith(','):
        text = text[:-1]
    out = {}
    if t == 'Gradient':
        for part in text.split('),'):
            pos, col = part.split(':')
            out[float(pos)] = numbers(col if col.strip().endswith(')')
                                      else col + ')')
    else:
        if not text.startswith("'"):
            raise SyntaxError(text)
        for part in text[1:].split(",'"):
            name, x = part.split("':")
            out[name] = literal('X_Y' if name in ('offset', 'scale')
                                else 'Angle', x)
    return out


def run(p, cell):
    t = cell['t']
    if t in ('Real', 'Angle'):
        x = p.real('x', -100000, 100000, 10)
    elif t == 'Integer':
        x = p.int('x', -10 ** 9, 10 ** 9)
    elif t == 'Bool':
        x = p.bool('x')
    elif t == 'Time':
        n = p.int('n', -10 ** 6, 10 ** 6)
        x = f'{n}f'
    elif t == 'X_Y':
        x = (p.real('x', -1000, 1000, 10), p.real('y', -1000, 1000, 10))
    elif t == 'Color':
        x = [0.125, 0.5, 1.0, 0.75]
        x[cell['i']] = p.real('c', 0, 1, 12)
        x = tuple(x)
    elif t == 'Gradient':
        a, b = p.real('a', 0, 1, 6), p.real('b', 0, 1, 6)
        p.assume(a != b)
        x = {a: (p.real('c', 0, 1, 4), 0.5, 0.25, 1.0),
             b: (0.0, 0.25, 0.75, 0.5)}
    elif t == 'Transformation':
        x = {'offset': (p.real('x', -1000, 1000, 6), 0.5),
             'angle': p.real('angle', -1000, 1000, 6), 'skew_angle': 0.25,
             'scale': (1.0, p.real('s', -10, 10, 6))}
    elif t == 'String':
        x = p.text('x', 0, 3, 'a\'"\\\n\u00e9')
    else:
        x = p.int('x', -1, 25)
    cls = getattr(v, t)
    r = cls(x)
    if cell['back']:
        # as it is in a file
        if t == 'BlendMethod':
            r = v.BlendMethod.from_tag(r.tag)
        elif t == 'String':
            p.assume(x.strip() == x)
            r = reload(r)
        else:
            r = reload(r)
    text = str(r.as_python_expression())
    p.observe('text', text)
    got = literal(t, text)
    again = cls(got)
    p.check(type(again) is type(r), 'type')
    if t in ('Real', 'Integer', 'Angle', 'Bool', 'String', 'BlendMethod'):
        p.check(again.value == r.value, 'value')
    elif t == 'Time':
        p.check(again.value.frames == n, 'time')
    elif t in ('X_Y', 'Color'):
        p.check(again.as_tuple() == r.as_tuple(), 'tuple')
    elif t == 'Gradient':
        p.check(len(got) == 2, 'colours')
        p.check(list(again.keys()) == list(r.keys()), 'positions')
        for c, d in zip(again.values(), r.values()):
            p.check(c.as_tuple() == d.as_tuple(), 'colours')
    else:
        p.check(sorted(again.keys()) == sorted(r.keys()), 'keys')
        for k in ('offset', 'scale'):
            p.check(again[k].as_tuple() == r[k].as_tuple(), k)
        for k in ('angle', 'skew_angle'):
            p.check(again[k].value == r[k].value, k)
    p.check(str(r.as_python_expression()) == text, 'again')
