"""Shared by harnesses; runs natively and symbolically."""
import bs4
import sangfroid
from sangfroid import T


def doc(fps='24.000', begin='0f', end='5s'):
    """The <canvas> root tag of a document."""
    soup = bs4.BeautifulSoup(
        '<?xml version="1.0"?><canvas><name>n</name></canvas>',
        features='xml')
    root = soup.canvas
    root['fps'] = fps
    root['begin-time'] = begin
    root['end-time'] = end
    return root


def at(frames, fps=None):
    """The T so many frames after the start (before it, if negative)."""
    if frames >= 0:
        return T(frames, ref=doc(fps=fps) if fps else None)
    # A negative number counts back from the end; here that's frame 0.
    t = T(frames, ref=doc(fps=fps or '24', begin='1f', end='0f'))
    return t if fps else T(t)


def soup_of(text):
    return bs4.BeautifulSoup('<?xml version="1.0"?>' + text, features='xml')


def reload(value):
    """The same value, after its XML is written out and read again."""
    tag = soup_of('<r>' + str(value.tag) + '</r>').r.find(recursive=False)
    return sangfroid.value.Value.from_tag(tag)


def state(tag):
    """Everything there is in a tag."""
    return str(tag)


def warm(*values):
    """
    Reads each value in every way there is, and returns the last.
    Reading must change nothing about what is read later.
    """
    for r in values:
        for how in [str, repr, lambda x: x.value, lambda x: x.as_tuple(),
                    list, len, float, int, bool,
                    lambda x: x == x, lambda x: x == x.value,
                    lambda x: list(x.items()), lambda x: list(x.keys()),
                    lambda x: (x.x, x.y, x[0], x['x']),
                    lambda x: list(x.timeline), lambda x: x.is_animated,
                    lambda x: x.our_type]:
            try:
                how(r)
            except (TypeError, AttributeError, ValueError, KeyError,
                    NotImplementedError):
                pass
    return values[-1]
