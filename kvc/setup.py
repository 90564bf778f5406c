"""setup: check that the tools the checks use are there; compile the Python files."""
import compileall, shutil, sys
sys.path.insert(0, '/verif')
compileall.compile_dir('/verif/kvc', quiet=1)
import z3
missing = [t for t in ('clang++-18', 'opt-18', 'cvc5', 'c++filt') if not shutil.which(t)]
if missing:
    print('missing tools:', missing); sys.exit(1)
print('kvc ready, z3', z3.get_version_string())
