"""Running TLC."""
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def command(module, cfg, metadir, workers=1, heap='2g', extra=(), gc='Serial'):
    return ['java', '-XX:+Use%sGC' % gc, '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4',
            '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
            '-metadir', metadir, '-config', cfg, *extra, os.path.join(SPEC, module + '.tla')]
