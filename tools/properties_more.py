OF = "src/fora/operations/files.py"
OU = "src/fora/operations/utils.py"
OA = "src/fora/operations/api.py"
RS = "src/fora/remote_settings.py"
CO = "src/fora/connection.py"
LOG = "src/fora/logger.py"

p("C05", "File operations reach the requested state once, then change nothing",
  "When a file operation (file, directory, link, upload, upload of content, upload of a directory tree, template, line) reports success, the managed object has exactly the requested type, content or target, and the requested or inherited owner, group and permission bits, whatever was there before; every valid request on a machine without failures succeeds. "
  "Run on a machine already in that state, it succeeds, reports no change and executes nothing that modifies the machine. "
  "Nothing besides the managed object is touched: links are never followed, other lines of an edited file keep their bytes, and parent directories and other files stay as they were.",
  ["inputs", "configurations", "histories"], "for every argument combination, default settings and previous state of the path, and any remote action failing",
  "Tests run against a dozen prepared files of one local machine; owner/mode/type combinations, special bits, undecodable targets and contents are unbounded.",
  [OF, OU, RS, CO], [("file operations", OF), ("content upload and comparison", OU + ":save_content"), ("defaults resolution", RS + ":ResolvedRemoteSettings.overlay"), ("state comparison", OA + ":Operation.changed")])

p("C06", "A dry run changes nothing and predicts the real run",
  "With the dry-run option no operation executes anything that modifies the machine, whatever its arguments, the state found, or the remote actions that fail. "
  "On a machine without failures a dry run succeeds exactly when the real run would, and reports the same initial state, final state and changed flag as that real run.",
  ["inputs", "configurations", "fault_sequences"], "for every operation with every argument combination, default settings, previous machine state and failing remote action",
  "The tests hardly use the dry-run option; predicting the real run needs both runs from every state.",
  [OF, OU, OA], [("dry-run guards around every mutating action", OF), ("dry-run guard", OU + ":save_content"), ("reported states", OA + ":Operation.success"), ("dry-run option", "src/fora/main.py:main")])

p("C07", "Operation results tell the truth",
  "An operation reports success only if every remote action it needed succeeded; a failed remote action always surfaces as an error or failure. "
  "It reports changed exactly when the managed state differs before and after, and the initial and final states it reports are the states found and left behind.",
  ["inputs", "configurations", "fault_sequences"], "for every operation with every argument combination, previous machine state and failing remote action",
  "Tests compare a few reported dictionaries on a healthy machine; failures between two remote actions and unusual states are never produced.",
  [OF, OU, OA], [("state declarations of operations", OF), ("result construction", OA + ":Operation.success/failure"), ("state comparison", OA + ":Operation.unchanged")])

p("C08", "Invalid requests are refused before anything is touched",
  "An operation whose arguments are malformed (relative path, invalid mode, unknown owner or group of a file, contradictory options), or whose target is an object it must not replace, ends in an error or a failure and leaves the machine exactly as it was, in a real as in a dry run (an upload of a directory tree: up to the object that is in the way). "
  "No path, name, mode or owner supplied by the user is ever interpreted by a system tool as one of its options.",
  ["inputs", "configurations"], "for every operation, every argument value and every object found at the target",
  "Tests try a handful of invalid arguments; hostile strings (leading dashes, empty, octal-looking) and object types form an unbounded space.",
  [OF, OU, RS], [("absolute path check", OU + ":check_absolute_path"), ("type checks before acting", OF), ("resolution of modes and owners", RS)])

SY = "src/fora/operations/system.py"
p("C09", "Accounts, packages and services reach the requested state, then stay unchanged",
  "When an account, package or service operation (user, group, package of each package manager, service, daemon reload) reports success, every requested aspect holds on the machine: the account exists or is gone with exactly the requested ids, groups, texts and paths (also when they are zero or empty), the packages are installed or absent, the service is enabled and running as requested in the requested service manager. "
  "Aspects that were not requested stay as they were. "
  "Run on a machine already in the requested state it succeeds, reports no change and executes nothing that modifies the machine.",
  ["inputs", "configurations", "histories"], "for every argument combination and every previous state of accounts, packages and services, and any remote action failing",
  "Tests cannot add accounts, packages or services to the machine they run on, so nothing here is sampled at all.",
  [SY, "src/fora/operations/portage.py", "src/fora/operations/apt.py", "src/fora/operations/pacman.py", "src/fora/operations/systemd.py", OU],
  [("accounts", SY + ":user/group"), ("package operations", OU + ":package"), ("services", "src/fora/operations/systemd.py:service"), ("state comparison", OA + ":Operation.changed")])

LD = "src/fora/loader.py"
TY = "src/fora/types.py"
IW = "src/fora/inventory_wrapper.py"
p("C10", "Remote settings apply exactly inside their block",
  "Default settings (owner, group, modes, user, group and umask of commands, working directory) given to a settings block apply to everything executed inside it and to nothing else: aspects that the block does not mention are inherited from the surrounding block, the innermost mention wins, and when the block ends, normally or by an exception, exactly the surrounding settings are in force again. "
  "Settings given directly to a command take precedence over the defaults, others come from the innermost block. "
  "Values that cannot be valid (malformed mode or umask, unknown user or group, empty or relative working directory) are refused when the block is entered, and then nothing changes. Every connection has its own base settings.",
  ["inputs", "configurations", "histories"], "for every combination of settings, nesting of blocks and exit by exception",
  "Tests nest a few blocks with fixed values; combinations of inherited, overridden and invalid values at every nesting are unbounded.",
  [RS, CO, TY, OA], [("settings blocks", TY + ":ScriptWrapper.defaults"), ("overlay of settings", RS + ":RemoteSettings.overlay"), ("resolution", CO + ":Connection.resolve_defaults"), ("commands", CO + ":Connection.run")])

p("C11", "A failed operation stops the script and errors arrive unchanged",
  "An operation that fails stops the script with an OperationError carrying the failure message, unless the caller passed check=False: then the failure is returned as a result that is not successful and not changed. Any other exception of an operation reaches the script unchanged. "
  "An operation is executed at most once per call, with the arguments given, and only while a host is active. "
  "Its result reports changed exactly when its declared initial and final states differ, every state is declared exactly once, and an operation composed of others stops at the first failing part and reports the states of its parts.",
  ["inputs", "configurations", "histories"], "for every operation body, arguments, outcome and nesting of operations",
  "Tests only run successful operations of the library; check=False, composed operations and erroneous bodies are hardly sampled.",
  [OA, OU, LOG], [("operation wrapper", OA + ":operation"), ("state protocol", OA + ":Operation"), ("reporting", LOG + ":run_script / print_process_error")])

p("C12", "Running a script leaves no trace in its caller",
  "A script is executed in the directory of its file, as the current script, with fresh settings and the parameters it was given (a missing required parameter is an error, others have their defaults). "
  "However it ends (normally, by an exception, or because it cannot be loaded), its caller afterwards finds its own directory, current script, settings and script stack as they were, and an exception of the script arrives unchanged. "
  "A script that is already running is not run again, by whatever path it is named, unless recursion was explicitly allowed.",
  ["inputs", "configurations", "histories", "fault_sequences"], "for every way of naming a script, chain of nested scripts, parameters and way of ending",
  "Tests run a few successful scripts; failing and recursive nesting under different names is unbounded.",
  [LD, TY, OA], [("running scripts", LD + ":run_script"), ("recursion check", LD + ":run_script / TY:definition_file"), ("parameters", TY + ":ScriptWrapper.Params"), ("script operation", "src/fora/operations/local.py:script")])

p("C13", "Inventories are validated and modules load in dependency order",
  "An inventory with contradictory group dependencies, a group depending on itself, duplicate or unknown groups or hosts, malformed declarations or missing explicit module files is refused, and a contradictory one before any group or host module is executed; every other inventory is accepted. "
  "Each host then executes the module of each of its groups exactly once, the group 'all' included, every group after all groups it depends on (directly or through others), and its own host module last; each module sees the group or host it is executed for, whose members (its name, its url and groups) are available in it.",
  ["inputs", "configurations"], "for every set of groups, hosts, memberships and dependency graph",
  "Tests load five fixed inventories; the order has to be right for every dependency graph and declaration order.",
  [IW, "src/fora/utils.py", LD], [("ranking of groups", "src/fora/utils.py:rank_sort"), ("declarations", IW + ":InventoryWrapper._preprocess_*"), ("loading", IW + ":InventoryWrapper.load / instanciate_host")])

p("C14", "The last module in dependency order decides a host's variables",
  "A module sees the variables as left by the modules executed before it for the same host: host variables of the declaration, inventory globals, its groups in dependency order. A variable of a host has the value given by the last module that set it, also when seen from templates, and variables of groups the host is not in do not appear. "
  "A group that overwrites a variable set by another group it does not depend on (directly or through others) is refused instead of silently deciding by load order; overwriting along dependencies is accepted.",
  ["inputs", "configurations"], "for every dependency graph and every assignment of definitions to modules",
  "Tests cover two groups with one variable; conflicts depend on the whole dependency graph and on who defined, changed or cleared the variable before.",
  [IW, TY], [("variables of modules", TY + ":ModuleWrapper.wrap / exported_variables"), ("conflict detection", IW + ":InventoryWrapper.instanciate_host"), ("lookup", TY + ":HostWrapper.__getattr__ / vars_hierarchical")])

MA = "src/fora/main.py"
TC = "src/fora/connectors/tunnel_connector.py"
p("C15", "A run visits exactly the selected hosts and leaves no connection open",
  "Running a script on an inventory visits exactly the selected hosts (all by default), each once, in the order given, one after the other, each with its own connection and as the user and group of that connection. A selection that names an unknown host, and an invalid inventory, is an error before any host is contacted. "
  "If a connection cannot be established, the script is not run for that host and the run ends with an error; an error of the script ends the run and arrives unchanged, even if the remote is gone by then. "
  "However the run ends, at every point where it can fail, all connections and their processes are closed, no host is active or connected any more, and fora never waits for a remote that will not answer.",
  ["inputs", "fault_sequences", "histories"], "for every selection of hosts and every failure of a connection or a script at any point",
  "Tests open one healthy connection; a remote that dies, refuses or is interrupted at each request of each host is never produced.",
  [MA, CO, TC], [("command line", MA + ":main"), ("run loop", MA + ":main_run"), ("connection lifetime", CO + ":Connection.__enter__/__exit__"), ("dispatcher process", TC + ":TunnelConnector.open/close")])

SSH = "src/fora/connectors/ssh.py"
p("C16", "A host url decides connector, name and destination",
  "A host url without a schema denotes an ssh host, any other is used as given. The schema of the url selects the connector unless the host names one explicitly, and a host that no connector can reach is an error. "
  "The default name of a host is the host part of its url: for ssh without schema, user and port (also for the short form without slashes and for bracketed addresses), for local urls what follows the schema or localhost; urls of unknown schemas are refused. "
  "The ssh connector contacts exactly the destination of the url with the options of the host, and what it runs there is the dispatcher, needing only a shell and python3.",
  ["inputs", "configurations"], "for every url built from any schema, user, host and port, and any ssh options",
  "Tests use a few fixed local urls and never run the ssh command.",
  [IW, TY, SSH, "src/fora/connectors/local.py"], [("qualification and names", IW + ":InventoryWrapper.qualify_url/extract_hostname"), ("ssh names and command", SSH + ":SshConnector"), ("selection of the connector", TY + ":HostWrapper.create_connector")])

GI = "src/fora/operations/git.py"
p("C17", "Git repositories reach the requested commit, then stay unchanged",
  "When git.repo reports success, the path is a clone of the url and its HEAD is the commit that exactly the requested branch or tag (else the default branch) has on the remote, with the requested depth and, after a clone or pull, the requested submodules; with update disabled an existing clone stays as it is. "
  "A clone already at that commit succeeds, is reported unchanged, and nothing is executed that modifies it. "
  "A directory that is no clone, a clone of another url or with another branch checked out, and a branch or tag that the remote does not have are refused without modifying anything.",
  ["inputs", "configurations", "histories", "fault_sequences"], "for every url, path, branch or tag name, option combination, state of remote and local repository, and any git command failing",
  "The only test needs the internet and clones once; refs sharing a name, tags, moved branches and failing commands are never produced.",
  [GI], [("newest commit", GI + ":repo"), ("clone and update", GI + ":repo"), ("refusals", GI + ":repo")])
