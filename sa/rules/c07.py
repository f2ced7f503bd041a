"""C07 Document text is UTF-8 regardless of locale."""
from ..common import *
from ..effects import io_call, norm

PASSES = 2      # of loop bodies

UTF8 = {'utf8', 'utf-8', 'utf_8', 'u8', 'cp65001'}
SIG = {'utf-8-sig', 'utf_8_sig', 'utf8-sig'}


def enc_verdict(enc, writing):
    """None if fine or unknown, else why the encoding is wrong."""
    if enc is None:
        return 'no encoding is given, so the platform default decides'
    for m in members(enc):
        if is_const(m):
            v = cval(m)
            if v is None:
                return 'the encoding is None, so the platform default decides'
            if not isinstance(v, str) or v.lower() not in UTF8 | (set() if writing else SIG):
                return 'the encoding is %r, not UTF-8' % (v,)
        elif m[0] == 'x' and (m[1].startswith('locale.') or m[1] in ('sys.getfilesystemencoding',
                                                                     'os.device_encoding')):
            return 'the encoding is taken from the platform (%s)' % m[1]
        elif m[0] == 'a' and m[2] == 'encoding' and m[1][0] == 'g':
            return 'the encoding is taken from the platform (%s)' % show(m)
        elif m[0] == 'g' and m[1].startswith(('sys.', 'locale.')):
            return 'the encoding is taken from the platform (%s)' % show(m)
    return None


def run(prog, ck, thorough):
    ck.rule('text-open', 'every text-mode open, read_text, write_text and text wrapper names UTF-8 as its encoding')
    ck.rule('bytes-written', 'text that is written to a binary file is encoded as UTF-8', 0)
    ck.rule('bytes-read', 'bytes that are read from a file are decoded as UTF-8', 0)
    ck.notes += ['csv and row-generator libraries outside the package choose their own encoding',
                 'an encoding that is a parameter of a public function is the choice of the caller']
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], []

        def obs_(ev, st, it):
            if ev.kind != 'XCALL':
                return
            io = io_call(ev)
            if io is not None and io.text:
                obs.append(('text-open', '%s:%s %s' % (ev.where[1], ev.where[2], io.op)))
                why = enc_verdict(io.encoding, io.modifies)
                if why:
                    findings.append(Finding('text-open', ev.where, io.op, '%s of %s: %s' % (
                        io.op, show(io.target) if io.target else 'a file', why), it.chain()))
            name, recv, args, kw = ev.args[:4]
            data = None
            if name == '.write' and args:
                data = args[0]
            elif io is not None and io.op == 'write_bytes':
                data = io.data
            if data is not None:
                for m in members(data):
                    if m[0] == 'o' and m[1] == 'encode':
                        obs.append(('bytes-written', '%s:%s' % ev.where[1:]))
                        why = enc_verdict(m[3], True)
                        if why:
                            findings.append(Finding('bytes-written', ev.where, 'encode',
                                                    'text written to the file: %s' % why, it.chain()))
                    elif m[0] == 'x' and m[1] in ('bytes', 'codecs.encode') and len(m[2]) > 1:
                        e = m[2][1]
                        e = e[2] if e[0] == 'kw' else e
                        why = enc_verdict(e, True)
                        if why:
                            findings.append(Finding('bytes-written', ev.where, 'encode',
                                                    'text written to the file: %s' % why, it.chain()))
            if name == '.decode' and any(t[0] == 'x' and t[1] in ('.read', '.read_bytes', '.readline')
                                         for t in walk(recv)):
                obs.append(('bytes-read', '%s:%s' % ev.where[1:]))
                why = enc_verdict(args[0], False)
                if why:
                    findings.append(Finding('bytes-read', ev.where, 'decode', 'bytes of the file: %s' % why, it.chain()))

        it = Interp(prog, atoms=at, cap=cap, observers=[obs_], opaque=('MetatabDoc', 'TermParser'))
        it.run(f)
        return pack(it, findings, obs)

    sweep(ck, entries(prog, private=True), job, label=lambda f: f.qual)
