"""pytest plugin: run the repository's own tests on the rewritten code (engine validation)."""
import os
from pyvc import transform
transform.install(os.environ.get("VERIF_REPO", "/repo"))
