"""Histories of command-line invocations (specs/Cli.tla) in a scratch folder."""
import hashlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from xml.etree import ElementTree as ET

from . import tree, xmlmap

TRACE = ('CliTrace', 'CliTrace.cfg')
SHIPPED = ['matroska', 'mide_ide', 'mide_manifest', 'mide_config_ui']
MODULES = dict(ebml2xml='ebml2xml', xml2ebml='xml2ebml', view='view_ebml', list='list_schemata')


def squeeze(t):
    return ''.join((t or '').split())


def canon_xml(b, single=False):
    """What an XML document says, or None."""
    try:
        root = ET.fromstring(b)
    except ET.ParseError:
        return None

    def say(x):
        return [x.tag, sorted(x.attrib.items()), squeeze(x.text), [say(y) for y in x], squeeze(x.tail)]
    r = json.dumps(say(root))
    if single:
        body = b.split(b'?>', 1)[1] if b.lstrip().startswith(b'<?xml') else b
        if b'\n' in body.strip():
            return 'several lines'
    return r


class Place:
    """The scratch folder, and the numbers of contents."""
    def __init__(self, rng, sc, sub=False, links=True):
        self.rng, self.sub = rng, sub
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='cli'))
        self.was = os.getcwd()
        self.ids = {}
        self.sc = sc
        s = tree.descs()[sc - 1]
        j = rng.choice
        self.names = dict(d=j(['d.ebml', 'in.mkv', 'data', 'a b.ebml', '\u00e9\u4e2d.ebml']), x=j(['x.xml', 'in', 'doc ument.xml']), junk=j(['junk', 'bad.xml']),
                          s=j(['s.xml', 's.xml', 'my schema.xml', 'S.XML', 's.schema', 'v1.2.xsd']), dir='dir', o=j(['o', 'out.xml', 'dir/out', 'dir/out.ebml']),
                          o2='o2.bin', gone=j(['gone', 'dir/gone.xml']), no='nodir/out', l='l.ebml', h='h.ebml')
        os.chdir(self.root)
        os.mkdir('dir')
        with open(self.names['s'], 'w', encoding='utf-8') as f:
            f.write(open(s['file'], encoding='utf-8').read() if 'file' in s else tree.schema_xml(s))
        for nm, make in (('d', self.ebml), ('x', self.xml), ('junk', self.rubbish)):
            with open(self.names[nm], 'wb') as f:
                f.write(make(s))
        self.links = []
        if links:
            os.symlink(self.names['d'], self.names['l'])
            os.link(self.names['d'], self.names['h'])
            self.links = [[self.names['l'], self.names['d']], [self.names['h'], self.names['d']]]
        self.ev = [dict(op='new', fs=self.files(), links=self.links)]

    def ebml(self, s):
        t = tree.rand_doc(self.rng, s, budget=self.rng.choice([2, 8, 20, 40]), xml=True)
        xmlmap.enrich(self.rng, s, t)
        return tree.render(t)

    def xml(self, s):
        c = xmlmap.rand_x2e(self.rng, self.sc, s)
        root = ET.Element('NoSuchDocument' if c['doc'] == -1 else tree.lib_schema(self.sc).document.__name__)
        for x in c['xs']:
            xmlmap.to_et(self.rng, s, x, root)
        name = tree.lib_schema(self.sc).document.__name__
        if 'vf%d' % self.sc in name.lower() or True:
            # the tools load the schema from a file: its document type is named differently
            from ebmlite import core
            root.tag = root.tag if c['doc'] == -1 else core.loadSchema(os.path.join(self.root, self.names['s']), reload=True).document.__name__
        return ET.tostring(root, encoding=self.rng.choice(['utf-8', 'us-ascii', 'utf-16']))

    def rubbish(self, s):
        r = self.rng
        return r.choice([b'', b'\0' * 9, bytes(r.randrange(256) for _ in range(40)), b'<a><b/>', b'\x1aE\xdf\xa3\xff\xff', self.ebml(s)[:-2]])

    def done(self):
        os.chdir(self.was)
        shutil.rmtree(self.root, ignore_errors=True)
        return self.ev

    def number(self, c):
        if c is None:
            return -2
        k = c if isinstance(c, bytes) else c.encode('utf-8', 'surrogatepass')
        k = (type(c).__name__, hashlib.sha1(k).digest())
        return self.ids.setdefault(k, len(self.ids) + 1)

    def files(self):
        res = []
        skip = {x[0] for x in self.links} if hasattr(self, 'links') else set()
        for d, ds, fs in os.walk(self.root):
            ds.sort()
            for f in sorted(fs) + ds:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                if rel in skip and (os.path.islink(p) or rel == self.names['h']):
                    continue
                if os.path.isdir(p):
                    res.append([rel, -3])
                else:
                    with open(p, 'rb') as g:
                        res.append([rel, self.number(g.read())])
        return sorted(res)

    def arg(self, p):
        k = self.rng.randrange(4)
        return os.path.join(self.root, p) if k == 0 else './' + p if k == 1 else p

    def command(self, e):
        """The arguments of a command, and its options."""
        r = self.rng
        if e['tool'] == 'list':
            o = dict(rel=r.randint(0, 1), paths=r.sample(['.', 'dir', self.root, 'nowhere'], r.choice([0, 1, 2])))
            argv = (['-r'] if o['rel'] else []) + o['paths']
            if e['out']:
                argv = (['-o', self.arg(e['out'])] + argv) if r.random() < 0.5 else (argv + ['--output=' + self.arg(e['out'])])
            return argv, o
        if e['sch'] == '@':
            sch = SHIPPED[self.sc - 2] + r.choice(['', '.xml'])
        elif e['sch'] == '?':
            sch = r.choice(['nope', 'nope.xml', os.path.join(self.root, 'nope.xml'), 'nodir/s.xml', './nope', 'dir/nope.xml', '{no_such_module}/s.xml', '{ebmlite}/nope.xml'])
        else:
            sch = self.arg(e['sch'])
            if sch.endswith('.xml') and r.random() < 0.5:
                sch = sch[:-4]
        o = dict(input=self.arg(e['in']), schema=sch, max=r.randint(0, 1), single=r.randint(0, 1), enc=r.choice(['', 'base64', 'hex', 'ignore']))
        opts = []
        if e['out']:
            p = self.arg(e['out'])
            opts.append(r.choice([['-o', p], ['--output', p], ['--output=' + p]]))
        if e['c']:
            opts.append([r.choice(['-c', '--clobber'])])
        if e['tool'] == 'ebml2xml':
            if o['single']:
                opts.append([r.choice(['-s', '--single'])])
            if o['max']:
                opts.append([r.choice(['-m', '--max'])])
        if e['tool'] in ('ebml2xml', 'view') and o['enc']:
            opts.append(r.choice([['-e', o['enc']], ['--encoding=' + o['enc']]]))
        r.shuffle(opts)
        k = r.randint(0, len(opts))
        return [x for q in opts[:k] for x in q] + [o['input'], sch] + [x for q in opts[k:] for x in q], o

    def library(self, e, o):
        """What the library produces (bytes, text or what an XML document says); -1: fails."""
        from ebmlite import core, util, xml_codecs
        core.SCHEMATA.clear()
        try:
            if e['tool'] == 'list':
                out = io.StringIO()
                kw = dict(absolute=not o['rel'])
                if o['paths']:
                    kw['paths'] = o['paths']
                if self.sub:
                    return subprocess.run([sys.executable, '-c', 'import sys, json\nfrom ebmlite import util\nutil.printSchemata(**json.loads(sys.argv[1]))',
                                           json.dumps(kw)], env=self.env(), stdin=subprocess.DEVNULL, capture_output=True, check=True).stdout
                util.printSchemata(out=out, **kw)
                return out.getvalue().encode('utf-8')
            name = o['schema']
            if not os.path.splitext(name)[1]:
                name += '.xml'
            schema = core.loadSchema(name)
            if e['tool'] == 'xml2ebml':
                out = io.BytesIO()
                util.xml2ebml(o['input'], out, schema)
                return out.getvalue()
            with schema.load(o['input'], headers=True) as doc:
                if e['tool'] == 'view':
                    out = io.StringIO()
                    util.pprint(doc, out=out, binary_codec=xml_codecs.BINARY_CODECS[o['enc'] or 'ignore']())
                    return out.getvalue().encode('utf-8', 'surrogatepass')
                m = bool(o['max'])
                codec = xml_codecs.BINARY_CODECS[o['enc'] or 'base64'](**(dict(cols=None) if o['single'] else {}))
                return canon_xml(ET.tostring(util.toXml(doc, offsets=m, sizes=m, types=m, ids=m, binary_codec=codec)))
        except Exception:
            return -1
        finally:
            core.SCHEMATA.clear()

    def env(self):
        env = dict(os.environ, PYTHONIOENCODING='utf-8')
        if self.xpath:
            env['EBMLITE_SCHEMA_PATH'] = self.xpath
        return env

    def run(self, e, argv):
        """(exit status, standard output)"""
        if self.sub:
            p = subprocess.run([sys.executable, '-m', 'ebmlite.tools.' + MODULES[e['tool']], *argv], env=self.env(),
                               stdin=subprocess.DEVNULL, capture_output=True)
            return p.returncode, p.stdout
        import importlib
        from ebmlite import core
        m = importlib.import_module('ebmlite.tools.' + MODULES[e['tool']])
        core.SCHEMATA.clear()
        buf = io.BytesIO()
        saved = sys.argv, sys.stdout, sys.stderr
        sys.argv, sys.stdout, sys.stderr = [MODULES[e['tool']]] + argv, io.TextIOWrapper(buf, encoding='utf-8'), io.StringIO()
        status = 0
        try:
            m.main()
        except SystemExit as err:
            status = err.code if isinstance(err.code, int) else 0 if err.code is None else 1
        except Exception:
            status = 1
        finally:
            out, self.err = sys.stdout, sys.stderr.getvalue()
            sys.argv, sys.stdout, sys.stderr = saved
            core.SCHEMATA.clear()
        try:
            out.flush()
        except ValueError:
            pass
        return status, buf.getvalue()

    def step(self, e):
        e = dict(e, **{k: self.names.get(e[k], e[k]) for k in ('in', 'sch', 'out')})
        self.xpath = self.rng.choice([None, None, self.root, self.root + os.pathsep + os.path.join(self.root, 'dir')]) if self.sub else None
        argv, o = self.command(e)
        lib = self.library(e, o)
        status, text = self.run(e, argv)
        got = None
        if e['out']:
            if os.path.isfile(e['out']):
                with open(e['out'], 'rb') as f:
                    got = f.read()
        else:
            got = text
        if e['tool'] == 'ebml2xml' and got is not None:
            got = canon_xml(got, o['single'])
        self.ev.append(dict(e, op='cmd', argv=argv, status=status, lib=lib if lib == -1 else self.number(lib), canon=self.number(got), fs=self.files()))


def rand_cmd(rng, sc):
    t = rng.choice(['ebml2xml', 'ebml2xml', 'xml2ebml', 'xml2ebml', 'view', 'list'])
    if t == 'list':
        return dict(tool='list', **{'in': ''}, sch='', out=rng.choice(['', '', 'o', 'o2']), c=0, nodir=0)
    e = dict(tool=t, sch=rng.choice(['s'] * 8 + ['?'] + ['@'] * (4 if 2 <= sc <= 5 else 0)), out=rng.choice(['', '', 'o', 'o', 'o', 'o2', 'o2', 'd', 'x', 'junk', 'l', 'h', 'dir', 's', 'no']), c=rng.randint(0, 1))
    e['in'] = rng.choice((dict(xml2ebml=['x', 'o', 'o2']).get(t, ['d', 'l', 'h', 'o', 'o2'])) * 3 + ['d', 'x', 'junk', 'gone', 'dir'])
    e['nodir'] = int(e['out'] == 'no')
    if not e['out']:
        e['c'] = 0
    if e['out'] == 'h' and e['in'] not in ('d', 'l', 'h'):
        e['c'] = 0
    return e


def history(c):
    rng = random.Random(c['seed'])
    p = Place(rng, c['sc'], bool(c.get('sub')), c.get('links', True))
    try:
        for e in c['hist']:
            p.step(e)
    finally:
        ev = p.done()
    return ev
