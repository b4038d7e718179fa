ID, PROP = "c06-backup-in-dry-run", "C06"
F = "src/fora/operations/files.py"
EDITS = [(F, '''        # Apply actions to reach desired state, but only if we are not doing a dry run
        if not fora.args.dry:
            if orig_bytes is None:
                conn.upload(file=path, content=new_bytes, mode=attr.file_mode, owner=attr.owner, group=attr.group)
            else:
                if backup:
''', '''        # Apply actions to reach desired state, but only if we are not doing a dry run
        if orig_bytes is None:
            if not fora.args.dry:
                conn.upload(file=path, content=new_bytes, mode=attr.file_mode, owner=attr.owner, group=attr.group)
        else:
            if True:
                if backup:
'''), (F, "                conn.upload(file=path, content=new_bytes)\n", "                if not fora.args.dry:\n                    conn.upload(file=path, content=new_bytes)\n")]
NEEDS = "a dry run of a line edit with a backup of an existing file that would change"
BREAKS = "the dry run creates the backup file"
DEMO = '''
p = TMP + "/f"
open(p, "w").write("a\\\\n")
c = connect(dry=True)
from fora.operations import files
files.line(p, "b", backup="f.bak")
finish(os.listdir(TMP) == ["f"], f"files after the dry run: {sorted(os.listdir(TMP))}")
'''
