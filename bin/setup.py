#!/usr/bin/env python3
"""setup_cmd: nothing persists into the checks, so this only verifies that the tools they use are present."""
import os, sys
need = ["/opt/veriftools/go1.25.14/bin/go", "/root/go/pkg/mod/pgregory.net/rapid@v1.3.0", "/repo/go.mod"]
missing = [p for p in need if not os.path.exists(p)]
if missing:
    print("missing:", missing); sys.exit(1)
print("ok")
