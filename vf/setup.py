"""setup: nothing has to be built; checks that the tools are there"""
import shutil, sys
miss = [t for t in ('clang', 'z3', 'z3-new', 'cvc5') if not shutil.which(t)]
if miss: print('missing: ' + ' '.join(miss)); sys.exit(1)
print('ok')
