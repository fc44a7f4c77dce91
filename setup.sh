#!/bin/bash
# Builds the framework: nothing to compile; parse every specification and check the tools.
cd "$(dirname "$0")" || exit 2
set -e
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import jax, haiku, flax, xarray, pandas, optax'
cd specs; for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; exit 1; }
done
/bin/rm -f /tmp/sany.$$
echo "setup ok: $(ls *.tla | wc -l) modules parsed"
