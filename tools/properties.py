"""Source of properties.jsonl (run to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


TD = "src/fora/connectors/tunnel_dispatcher.py"
TC = "src/fora/connectors/tunnel_connector.py"

p("C01", "Messages between controller and remote arrive exactly as sent",
  "Every message the controller or the remote dispatcher can send is decoded by the other side to an equal message of the same type, using up exactly the bytes that were sent, for all field values including empty, absent, huge and non-ASCII ones. "
  "A value that cannot be represented is refused by an error before a single byte is sent, so the stream never carries a partial message. "
  "If the stream ends anywhere inside a message, the reader reports a connection error instead of inventing a message.",
  ["inputs", "fault_sequences"], "for every message type, every value of every field, and every point at which the stream is cut off",
  "Tests send a dozen sample messages through one local dispatcher; field values (lengths, surrogates, 64-bit boundaries, empty lists) and cut-off points are unbounded.",
  [TD], [("serializers and deserializers per field type", TD), ("packet framing: id followed by fields", TD), ("receive_packet / read of exactly n bytes", TD)])

p("C02", "Each remote request gets exactly one answer and the link stays in step",
  "Whatever a remote request asks for and whatever fails while it is served on the remote machine, the remote sends exactly one answer, the caller gets either that answer's value or an exception, and the connection is afterwards ready for the next request with both sides in step. "
  "No failure of a single request ends the remote dispatcher; only the exit message or the end of the stream does. "
  "A request is never answered with the answer to another one, and a command run on the remote can neither read from the connection nor write to it.",
  ["inputs", "histories", "fault_sequences"], "for every request type with every argument, every failing system call while serving it, and every sequence of requests on one connection",
  "Tests issue a few well-behaved requests; they cannot make each system call of the remote fail nor cover arguments such as embedded NUL bytes.",
  [TD, TC], [("dispatcher main loop and its error handling", TD + ":_main"), ("request/response pairing", TC + ":_request"), ("mapping of remote errors to exceptions", TD + ":receive_packet")])

p("C03", "A remote command runs exactly as asked, or not at all",
  "A command run on a remote host is started at most once, with exactly the given argument list, standard input, user, group, umask and working directory (by name or number, group defaulting to the user's primary group, umask to 077; supplementary groups being those of that user); if any of these is invalid nothing is started and the caller gets an error. "
  "The caller receives the command's exit status and, when output was requested to be captured, its unchanged output streams; with checking on, a non-zero status becomes an error carrying status, output and command. "
  "Running a command never changes the identity, umask or directory of the dispatcher itself.",
  ["inputs", "configurations", "fault_sequences"], "for every command line, input, user/group/umask/cwd combination, user database and failing system call",
  "Tests run a handful of commands as the test user; they cannot switch users or cover the space of databases, umasks and failures.",
  [TD, TC], [("process execution and privilege switching", TD + ":PacketProcessRun.handle"), ("user/group/mode resolution", TD + ":_resolve_user/_resolve_group/_resolve_oct"), ("client side of run", TC + ":run")])

p("C04", "Uploads, downloads, stats and account queries report and create the truth",
  "An upload leaves the remote file with exactly the given bytes, owner, group and permission bits (including special bits), a download returns exactly the file's bytes, and a stat or a user, group or environment query returns exactly what the remote system holds. "
  "Something that does not exist is reported as missing and every other failure is reported as an error; neither is ever presented as a success. "
  "An upload with an invalid mode, owner or group changes nothing.",
  ["inputs", "configurations", "fault_sequences"], "for every path, content, mode, owner, group, file-system object, user database and failing system call",
  "Tests upload small files as one user to one file system; modes, owners, object types and failures form an unbounded space.",
  [TD, TC], [("upload/download/stat handlers", TD), ("query handlers", TD), ("client side result construction", TC)])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_more.py")) else None

with open(f"{V}/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
