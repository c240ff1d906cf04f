"""What an XML parser reports about a document."""
from xml.parsers import expat


def events(data, fragment=False):
    """List of everything expat reports, with adjacent text merged."""
    p = expat.ParserCreate(namespace_separator='}')
    p.namespace_prefixes = 1
    p.ordered_attributes = 1
    out = []

    def text(s):
        if out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + s)
        else:
            out.append(('text', s))

    def start(name, attrs):
        pairs = zip(attrs[::2], attrs[1::2])
        out.append(('start', name, tuple(pairs)))

    def add(kind):
        return lambda *a: out.append((kind,) + a)

    def default(s):
        # references that were not expanded
        out.append(('other', s))

    pend = []

    def ns(prefix, uri):
        pend.append((prefix or '', uri or ''))

    def start2(name, attrs):
        if pend:
            out.append(('ns', tuple(pend)))
            del pend[:]
        start(name, attrs)

    p.StartElementHandler = start2
    p.EndElementHandler = add('end')
    p.CharacterDataHandler = text
    p.CommentHandler = add('comment')
    p.ProcessingInstructionHandler = add('pi')
    p.StartCdataSectionHandler = add('cdata')
    p.EndCdataSectionHandler = add('/cdata')
    p.StartNamespaceDeclHandler = ns
    p.XmlDeclHandler = add('xmldecl')
    p.StartDoctypeDeclHandler = add('doctype')
    p.EndDoctypeDeclHandler = add('/doctype')
    p.EntityDeclHandler = add('entity')
    p.ElementDeclHandler = add('element')
    p.AttlistDeclHandler = add('attlist')
    p.NotationDeclHandler = add('notation')
    p.SkippedEntityHandler = add('skipped')
    p.Parse(data if isinstance(data, bytes) else data.encode('utf-8'), True)
    return out
