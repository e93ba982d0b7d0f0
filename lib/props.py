import importlib
TABLE = {}
for m in ("props_flow", "props_mesh", "props_pred", "props_cls", "props_tri", "props_tet", "props_solid"):
    TABLE.update(importlib.import_module(m).TABLE)
