"""Running TLC, and getting data in and out of it.

Every run happens in a private scratch directory (removed afterwards) that holds
a copy of /verif/spec/*.tla, the generated .cfg and whatever JSON the run reads.
Lines a spec prints with PrintT(<<"@@", ToJson(x)>>) are decoded and returned.
"""
from __future__ import annotations
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class UnreadableTrace(Exception):
    """TLC could not evaluate the specification on recorded values."""


class MachineryError(Exception):
    """The check itself failed: neither a pass nor a violation."""


@dataclass
class TlcResult:
    ok: bool
    violated: str | None
    emitted: list = field(default_factory=list)
    states: int = 0
    transitions: int = 0
    output: str = ''
    wall: float = 0.0
    trace: str = ''


_LINE = re.compile(r'^<<"@@", "(.*)">>$')
_STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found')


def _decode(body: str):
    # TLC prints a TLA+ string literal: \" and \\ are escaped.
    return json.loads(json.loads('"' + body + '"'))


def run(module: str, *, cfg: str, data: dict | None = None, workers: int = 8,
        heap: str = '6g', timeout: int = 800, extra: list[str] | None = None,
        keep_output: bool = False, emit_file: str | None = None) -> TlcResult:
    """Run TLC on spec/<module>.tla.  `data` maps file names to JSON-able values
    written next to the spec.  If `emit_file` is given, that file (a JSON array
    or ndjson written by the spec) is loaded into `emitted`."""
    scratch = tempfile.mkdtemp(prefix='verif-tlc-')
    t0 = time.time()
    try:
        for path in glob.glob(os.path.join(SPEC, '*.tla')):
            shutil.copy(path, scratch)
        with open(os.path.join(scratch, 'run.cfg'), 'w') as fh:
            fh.write(cfg)
        for name, value in (data or {}).items():
            with open(os.path.join(scratch, name), 'w') as fh:
                json.dump(value, fh)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
               '-Dtlc2.tool.impl.Tool.cdot=true',
               '-cp', JARS, 'tlc2.TLC', '-config', 'run.cfg',
               '-workers', str(workers), '-nowarning', '-deadlock',
               '-metadir', os.path.join(scratch, 'meta'), *(extra or []),
               module + '.tla']
        env = dict(os.environ)
        env['JAVA_TOOL_OPTIONS'] = ''
        with open(os.path.join(scratch, 'out.txt'), 'w+b') as out:
            try:
                proc = subprocess.run(cmd, cwd=scratch, stdout=out,
                                      stderr=subprocess.STDOUT, env=env,
                                      timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError(f'TLC timed out on {module}')
            out.seek(0)
            res = TlcResult(ok=False, violated=None)
            kept: list[str] = []
            for raw in out:
                line = raw.decode('utf-8', 'replace').rstrip('\n')
                m = _LINE.match(line)
                if m:
                    res.emitted.append(_decode(m.group(1)))
                    continue
                m = _STATS.match(line)
                if m:
                    res.transitions = int(m.group(1))
                    res.states = int(m.group(2))
                kept.append(line)
        text = '\n'.join(kept)
        res.output = text
        res.wall = time.time() - t0
        m = re.search(r'Error: (?:Invariant|Action property|Temporal properties) ?(\S*)', text)
        if 'No error has been found' in text:
            res.ok = True
        elif 'is violated' in text or 'was violated' in text or 'were violated' in text:
            m2 = re.search(r'(?:Invariant|property) (\S+) (?:is|was) violated', text)
            res.violated = m2.group(1) if m2 else 'property'
            i = text.find('Error:')
            res.trace = text[i:i + 6000]
        else:
            odd = module.startswith('Trace') and 'OutOfMemory' not in text \
                and re.search('evaluat|Attempted to|Overflow', text)
            raise (UnreadableTrace if odd else MachineryError)(f'TLC failed on {module} (exit '
                                 f'{proc.returncode}):\n{text[-4000:]}')
        if emit_file:
            path = os.path.join(scratch, emit_file)
            with open(path) as fh:
                res.emitted.extend(json.loads(l) for l in fh if l.strip())
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
