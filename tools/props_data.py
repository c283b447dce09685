"""The properties: what each says, and what the checks claim about it."""


def prop(id, title, statement, over, quant, why, files, mechanism, claim,
         state=(), observe=()):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': quant},
            'why_tests_cant': why,
            'anchors': {'files': files,
                        'state': [dict(zip(('name', 'meaning', 'where'), s))
                                  for s in state],
                        'mechanism': [dict(zip(('name', 'where'), m))
                                      for m in mechanism],
                        'observe_at': list(observe), 'hook_needed': None},
            'claim': claim}


PROPS = [
    prop('C01', 'A crash or I/O error while saving never damages a graph file',
         'Whenever a graph, or the cached result of a run, is saved and the '
         'process dies or any file operation fails on the way, the file '
         'holds either its complete previous content or the complete new '
         'content. A save that reports success has the new content on disk, '
         'with the file\'s permissions and links kept. A save that fails '
         'leaves no stray files, does not move the graph to another path, '
         'and succeeds when repeated once the fault is gone.',
         ['crash_points', 'fault_sequences', 'histories', 'inputs'],
         'every graph, save history, and position and kind of fault (death, '
         'full disk, I/O error, no permission, short write) within a save',
         'The tests save to a healthy disk and never interrupt a save; the '
         'claim is about every operation of the save path failing.',
         ['nxt/nxt_io.py', 'nxt/nxt_layer.py', 'nxt/session.py',
          'nxt/atomic_file.py'],
         [('temp file next to the target, then replace',
           'nxt/atomic_file.py open_atomic'),
          ('file writing', 'nxt/nxt_io.py save_file_data'),
          ('save entry points', 'nxt/nxt_layer.py SpecLayer.save, '
           'CacheLayer.save; nxt/session.py Session.save_layer')],
         {'level': 'fault_enumeration', 'note':
          'Every faultable disk operation of each simulated save history is '
          'hit (sampled when there are many) by every kind of fault; '
          'process death is modelled, power loss is not. Trusts the '
          'simulated disk layer and rename atomicity.'},
         observe=['file content, directory listing, permissions after the '
                  'save, and a reopening process']),
    prop('C02', 'Converting a graph file never loses it or changes its meaning',
         'Converting a graph saved in an older format, in place or to the '
         'converted copy beside it, leaves every file it touches holding '
         'either what it held before or the complete converted graph, '
         'however the conversion fails or dies, and never touches any other '
         'file. A conversion that reports success has written the complete '
         'graph, with permissions and links kept and no stray files, and it '
         'composes exactly like the original; an unreadable file is refused '
         'with a failing exit code.',
         ['crash_points', 'fault_sequences', 'inputs'],
         'every graph in every older format, number of conversions, and '
         'position and kind of fault within a conversion',
         'The tests convert a few sample files on a healthy disk; the claim '
         'is about every graph and about failing at any operation.',
         ['nxt/cli.py', 'nxt/nxt_io.py', 'nxt/legacy.py',
          'nxt/atomic_file.py'],
         [('command line conversion', 'nxt/cli.py convert'),
          ('version by version converters', 'nxt/legacy.py'),
          ('loading with conversion', 'nxt/nxt_io.py load_file_data')],
         {'level': 'fault_enumeration', 'note':
          'Sampled graphs and formats; for each, (disk operation, fault) '
          'pairs are enumerated up to a limit. Process death, not power '
          'loss.'},
         observe=['exit code, the original and the converted file, the '
                  'composed graph a fresh process opens']),
    prop('C03', 'Edit, save, crash and reopen histories keep exactly the edits',
         'After any history of edits, saves, failed saves, crashes and '
         'reopenings, each file holds exactly the edits made up to its last '
         'successful save, no more and no less, and a new process that opens '
         'the graph sees the same layers, nodes, values and order as the '
         'saving process did. An edit changes only what it was asked to '
         'change on the layer it was made on: it never overwrites, drops or '
         'takes the name of another node or attribute, and order among '
         'siblings stays.',
         ['histories', 'crash_points', 'fault_sequences'],
         'every sequence of stage edits, saves, crashes and reopenings over '
         'graphs of up to three layers',
         'The tests run single edits and compare samples; whole histories '
         'with crashes between them are out of their reach.',
         ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_node.py',
          'nxt/nxt_io.py', 'nxt/session.py'],
         [('editing API', 'nxt/stage.py Stage.add_node, delete_node, '
           'set_node_name, set_node_parent, duplicate_nodes, '
           'node_setattr_data, set_node_*'),
          ('what a layer saves', 'nxt/nxt_layer.py SpecLayer.get_save_data'),
          ('what a node saves', 'nxt/nxt_node.py get_node_as_dict')],
         {'level': 'exploration', 'note':
          'Seeded random histories against a dictionary model of the save '
          'files. Up to three layers and a dozen nodes; code, values and '
          'names from small pools.'},
         observe=['saved files after every operation', 'the composed graph '
                  'in a fresh process']),
    prop('C04', 'Opening a graph survives missing, damaged or failing files',
         'Opening a graph whose references are missing, unreadable, '
         'incompatible, cyclic or fail with an I/O error opens exactly the '
         'layers that can be read, composed as if the others were not '
         'referenced; a graph whose own file cannot be read is refused with '
         'an error. Either way the working directory, every file and every '
         'other open graph stay as they were, saving the opened layers '
         'afterwards keeps every reference they had, and opening again works '
         'once the fault is gone.',
         ['fault_sequences', 'configurations', 'inputs'],
         'every tree of graph files, state of each file, way of referencing '
         'and failing open or read',
         'The tests open complete sample trees from a healthy disk.',
         ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_io.py',
          'nxt/nxt_path.py', 'nxt/session.py', 'nxt/tokens.py'],
         [('loading the layer tree', 'nxt/stage.py Stage.load_from_layer_data,'
           ' load_from_filepath'),
          ('reference lookup', 'nxt/nxt_path.py full_file_expand'),
          ('session', 'nxt/session.py Session.load_file')],
         {'level': 'fault_enumeration', 'note':
          'Sampled file trees; for each, every open and read (up to a limit) '
          'fails once. The oracle is the same code on the tree without the '
          'failed references, so a composition error common to both is not '
          'seen.'},
         observe=['layers of the opened graph', 'composed graph with '
                  'resolved file tokens', 'cwd', 'files', 'session']),
    prop('C05', 'A session keeps its open graphs apart whatever the clock does',
         'However coarse, stalled or jumping the clock, every graph created '
         'or opened in a session stays open under an id and, for new graphs, '
         'a name of its own until it is unloaded. Loading, saving, saving '
         'under a new path and unloading affect only the graph they were '
         'asked for; saving by path writes that open graph\'s content to '
         'exactly that file, and an operation that fails leaves every open '
         'graph unchanged.',
         ['histories', 'schedules', 'fault_sequences'],
         'every sequence of session operations, clock behaviour and disk '
         'fault',
         'Ids come from the clock; the tests run at real time and open one '
         'or two graphs.',
         ['nxt/session.py', 'nxt/stage.py'],
         [('open graph table', 'nxt/session.py Session.loaded_files, '
           'new_file, load_file, save_file, save_layer, unload_file'),
          ('ids', 'nxt/stage.py Stage.uid')],
         {'level': 'exploration', 'note':
          'Seeded random histories of up to 20 operations against a '
          'dictionary model.'},
         observe=['loaded_files, saved files, content of every open graph']),
    prop('C06', 'Session logs are kept, tracked and cleaned up exactly',
         'Every session writes its records to a log file of its own, which '
         'stays on the tracking list until it is removed; cleaning up '
         'removes only listed logs older than 48 hours, removes all of them, '
         'and drops entries whose file is gone. A failure to read or write '
         'the list or to remove a log never makes a session fail or an '
         'existing log go untracked, and processes that start at once do not '
         'break each other.',
         ['histories', 'fault_sequences', 'crash_points', 'schedules'],
         'every history of sessions in one or two processes, ages and states '
         'of logs, clock jumps, disk faults and deaths',
         'The tests never age a log, fail the disk or start two processes.',
         ['nxt/session.py', 'nxt/nxt_log.py', 'nxt/constants.py'],
         [('tracking list and retention', 'nxt/session.py Session.__init__, '
           'start_session_log; nxt/nxt_log.py clean up and tracking '
           'functions'),
          ('user directory', 'nxt/constants.py')],
         {'level': 'exploration', 'note':
          'Seeded random histories; stat faults and power loss are not '
          'modelled, file times follow the simulated clock.'},
         observe=['log directory, tracking list, log content']),
    prop('C07', 'Log records from other processes arrive whole and in order',
         'Every record another nxt process sends over an unbroken log '
         'connection is logged exactly once, in the order sent and with its '
         'message, level and links, as soon as it has arrived, also while other '
         'senders stay connected, and however the network cuts the stream '
         'into pieces or delays it. When connections break or senders die '
         'mid-record, what is logged per connection is a prefix of what was '
         'sent: no partial, invented or doubled record, and the receiver '
         'goes on serving other senders and can still exit.',
         ['schedules', 'fault_sequences', 'inputs'],
         'every sequence of records from up to three senders, stream '
         'fragmentation, delay, reset and sender death',
         'Loopback delivers small records in one piece; the tests send none.',
         ['nxt/nxt_log.py', 'nxt/session.py'],
         [('receiver', 'nxt/nxt_log.py LogRecordStreamHandler, LogRecordSocketReceiver'),
          ('sender', 'logging.SocketHandler set up by nxt/nxt_log.py')],
         {'level': 'exploration', 'note':
          'Seeded schedules and network faults over simulated TCP; the '
          'standard library socket server and handler run for real.'},
         observe=['records logged by the receiving process']),
    prop('C08', 'The log receiver stops at once and can start again',
         'Stopping the log receiver returns within seconds and frees its '
         'port, whatever clients are connected, idle or stuck inside a '
         'record, and it can be started again right away, in the same '
         'process or in another after an exit or kill. A running receiver '
         'logs each record exactly once, a second start does not disturb it, '
         'and a process that stopped its receiver can exit.',
         ['schedules', 'histories', 'fault_sequences'],
         'every history of starts, stops, exits, kills and client behaviour',
         'The tests never start the receiver.',
         ['nxt/nxt_log.py', 'nxt/session.py'],
         [('start and stop', 'nxt/nxt_log.py startup_log_socket, shutdown_log_socket, '
           'LogRecordSocketReceiver')],
         {'level': 'exploration', 'note':
          'Seeded schedules over simulated TCP and threads; "seconds" is '
          '5 s of simulated time.'},
         observe=['port, return of stop, process exit, records logged']),
    prop('C09', 'Messages to the listening editor arrive whole, once and in '
         'order',
         'Whatever an application that hosts nxt logs and runs, from any '
         'threads and however the connection to the listener behaves, the '
         'listener receives a sequence of whole, well-formed messages. Each '
         'record logged while connected arrives exactly once, in the order '
         'of its thread. The requests to wait balance, nodes run only after '
         'the listener answered, a failed run sends one error message and '
         'asking for the cache sends it once. Logging, running and closing '
         'never raise, recurse or hang because of the connection (a '
         'handshake waits for its time limit at most). Closing ends the '
         'connection and removes the log handler, connecting again leaves '
         'one connection and one handler, and works.',
         ['schedules', 'fault_sequences', 'crash_points', 'histories'],
         'every history of calls, interleaving of logging threads, and '
         'timing and kind of listener and connection failure',
         'No test connects to a listener; framing, handshakes and locks '
         'only go wrong under certain interleavings and failures.',
         ['nxt/remote/nxt_socket.py'],
         [('framing', 'nxt/remote/nxt_socket.py send_to_server, send_log, '
           'NXTSocketLogHandler'),
          ('handshake', 'nxt/remote/nxt_socket.py IPCWait'),
          ('model', 'nxt/remote/nxt_socket.py SocketClientModel, setup')],
         {'level': 'exploration', 'note':
          'Seeded random schedules and faults; TCP, threads and time are '
          'simulated, the listener is a stand-in that decodes every byte.'},
         observe=['decoded messages at the listener, raised exceptions, '
                  'simulated time of each call, log handlers']),
    prop('C10', 'Executing with the rpc server leaves nothing behind',
         'However an execution that needs the rpc server ends (success, a '
         'failing graph, a server that cannot be started, starts late, hangs '
         'or dies, broken connections), the call returns, no server process '
         'it started stays alive, no port stays held, the environment of '
         'the process is what it was, headless interpreters end, and the '
         'process can exit. A server that answers within the start timeout '
         'is used. A server somebody else started is never shut down. '
         'Failing graphs are reported as failed, and once faults stop '
         'executions work again.',
         ['schedules', 'fault_sequences', 'crash_points', 'histories'],
         'every history of executions by up to two sessions, and timing and '
         'kind of server, spawn and connection failure',
         'The tests never start a server that fails, and one schedule says '
         'nothing about two sessions that share a machine.',
         ['nxt/session.py', 'nxt/remote/server.py', 'nxt/remote/client.py',
          'nxt/remote/__init__.py'],
         [('server life', 'nxt/session.py RPCServerProcess.start, terminate, '
           'Session.start_rpc_if_needed, shutdown_rpc_server'),
          ('shutdown', 'nxt/remote/server.py ServerFunctions.kill')],
         {'level': 'exploration', 'note':
          'Seeded random schedules and faults; processes, TCP and time are '
          'simulated, every process runs the real code.'},
         observe=['processes, ports, environment, result of each call']),
    prop('C11', 'A graph gives the same result in another interpreter or as '
         'a sub graph',
         'Executing a graph in a named context, through a remote sub graph '
         'node, as a local sub graph, by the command line or by concurrent '
         'calls to one server, with the same start and parameters, runs the '
         'same nodes in the same order in the right place and gives the same '
         'JSON values, null aside, as executing it plainly in this process: '
         'false and empty values, any string and number, and early exits '
         'included. An execution that cannot give that result raises; it '
         'never returns other, partial, earlier or another call\'s values. '
         'The server holds no files open between executions.',
         ['inputs', 'schedules', 'fault_sequences', 'histories'],
         'every graph, start, parameters and values, and timing and kind of '
         'interpreter death, connection and disk failure',
         'The tests execute one remote graph with one value on a healthy '
         'machine.',
         ['nxt/remote/server.py', 'nxt/remote/client.py', 'nxt/session.py',
          'nxt/builtin/remote_contexts.nxt', 'nxt/builtin/_context.nxt',
          'nxt/builtin/sub_graphs.nxt', 'nxt/nxt_layer.py',
          'nxt/nxt_node.py', 'nxt/cli.py', 'nxt/__init__.py'],
         [('headless execution', 'nxt/remote/server.py '
           'ServerFunctions.exec_in_headless'),
          ('results', 'nxt/nxt_layer.py CacheLayer.save, '
           'load_from_layer_data'),
          ('sub graphs', 'nxt/builtin/sub_graphs.nxt, remote_contexts.nxt, '
           '_context.nxt')],
         {'level': 'exploration', 'note':
          'Seeded random graphs and faults, compared with a plain execution '
          'of the same graph.'},
         observe=['values of every node, order and process of the nodes that '
                  'ran, open files of the server']),
    prop('C12', 'The rpc server is found whatever its info file holds',
         'Looking up the server address gives a well-formed address and '
         'never raises, whatever the info file holds or if it cannot be '
         'read; while servers come and go and rewrite it, a lookup gives a '
         'port one of them published or the default. Once a server has '
         'started, lookups lead to it. A stale or damaged file does not keep '
         'the next server from starting, and a server that cannot publish '
         'its address does not stay.',
         ['inputs', 'schedules', 'fault_sequences', 'crash_points'],
         'every content of the info file and every interleaving of servers '
         'that write it, die or fail while others read it',
         'The tests read one good file with nobody writing.',
         ['nxt/remote/__init__.py', 'nxt/remote/server.py'],
         [('lookup', 'nxt/remote/__init__.py get_running_server_address'),
          ('publishing', 'nxt/remote/server.py secure_address')],
         {'level': 'exploration', 'note':
          'Seeded random contents, schedules and faults.'},
         observe=['result of each lookup, server answers at that address']),
    prop('C13', 'A run executes the right nodes, in order, with the right values',
         'Executing a graph, from a start node or over listed nodes, runs '
         'every enabled node exactly once per turn in hierarchy and '
         'execute-in order, each with its composed values, resolved tokens '
         'and parameters as changed by the nodes run before it, and with '
         'only its own and global names. What a node sets is seen by the '
         'nodes after it, by the runtime layer and by the cached result; '
         'what it leaves unchanged keeps its tokens. A nested execute runs '
         'the same way and then gives the calling node its own self, names '
         'and place back; an error is reported with the failing node and '
         'line.',
         ['inputs', 'histories', 'fault_sequences'],
         'every graph (hierarchy, instances, layers, disabled nodes, chains '
         'and circles of execute-in), node code of plain assignments, '
         'nesting, parameters, and error or exit inside node code',
         'The tests run a few sample graphs to the end without errors.',
         ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/runtime.py',
          'nxt/tokens.py'],
         [('running', 'nxt/stage.py Stage.execute, execute_nodes, run, '
           'setup_runtime_layer'),
          ('order', 'nxt/nxt_layer.py CompLayer.get_exec_order, '
           'get_root_exec_order'),
          ('node code console', 'nxt/runtime.py Console')],
         {'level': 'exploration', 'note':
          'Random graphs of up to six nodes and two layers with code from a '
          'small language, compared with a model of Python classes. '
          'Deleting attributes and values that cannot be copied are left '
          'out.'},
         observe=['what each node sees when it runs', 'runtime layer, cache '
                  'and how the call ends']),
    prop('C14', 'A runtime layer can be carried on with however the last run '
         'ended',
         'However a run on a runtime layer ends (completed, failed, '
         'interrupted, exited node or graph, syntax error, unknown node), '
         'the caller is told that ending, and the layer, which says it is '
         'running exactly while a node runs, holds exactly what the nodes that finished left: no attribute '
         'values and no local names of the failed node leak. The next run, snippet or execute '
         'of nodes on the layer carries on from there exactly as if '
         'the failed run had been limited to the nodes that finished, and '
         'other runtime layers notice nothing.',
         ['histories', 'fault_sequences'],
         'every history of up to seven calls on two runtime layers and every '
         'point and kind of failure, exit or interrupt inside node code',
         'The tests never use a runtime layer again after a failure.',
         ['nxt/stage.py', 'nxt/runtime.py', 'nxt/nxt_layer.py'],
         [('continuing', 'nxt/stage.py Stage.execute_nodes, '
           'execute_custom_code, run'),
          ('console', 'nxt/runtime.py Console')],
         {'level': 'exploration', 'note':
          'Seeded random histories against the model of C13; interrupts '
          'arrive while node code runs.'},
         observe=['ending of each call', 'what later nodes see, runtime '
                  'layer, cache']),
    prop('C15', 'Running a graph never changes the authored graph',
         'Whatever node code does to its own attributes, to STAGE, to values '
         'in place or to names, and however runs end, the authored layers, '
         'the composed graph, what composes next, every other runtime layer '
         'and the files on disk stay what they were. Saving after a run '
         'writes only what was authored.',
         ['histories', 'fault_sequences', 'inputs'],
         'every graph and history of runs on up to five runtime layers with '
         'failing node code and failing disk',
         'The tests look at the results of a run, not at what else changed.',
         ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_node.py'],
         [('copying composed nodes for a run', 'nxt/stage.py '
           'Stage.setup_runtime_layer, execute_nodes, run')],
         {'level': 'exploration', 'note':
          'Seeded random histories. Node code that edits the graph through '
          '__stage__ is left out.'},
         observe=['save data of every layer, composed values with sources, '
                  'files, other runtime layers']),
    prop('C16', 'Every run of a node is timed exactly, however it ends',
         'The times kept with a runtime layer hold one entry per run of a '
         'node, in the order the runs began, each from when the run began to '
         'when it ended, for nodes that ran more than once, inside '
         'themselves or inside others, and for runs that failed, exited or '
         'were interrupted. Asking for a run that did not happen is an '
         'error, and a moment counts as during execution exactly when a node '
         'was running then.',
         ['histories', 'schedules', 'fault_sequences'],
         'every history of runs, durations, stalls and endings',
         'The tests run at real time and never look at the times.',
         ['nxt/nxt_layer.py', 'nxt/stage.py'],
         [('times', 'nxt/nxt_layer.py CacheLayer.set_node_enter_time, '
           'set_node_exit_time, get_node_run_time, was_during_node_exec'),
          ('taking them', 'nxt/stage.py Stage.execute_nodes, '
           'execute_custom_code')],
         {'level': 'exploration', 'note':
          'Seeded random histories with a simulated clock that stands still '
          'outside node code and does not go back.'},
         observe=['CacheLayer.get_node_run_time for every index, '
                  'was_during_node_exec at every edge and between']),
    prop('C17', 'Contexts are created whole or not at all, and no plugin '
         'keeps another from loading',
         'Creating a remote context either makes a plugin with which this '
         'and every later process has a context of exactly the given name, '
         'interpreter, graph and arguments, whose graph opens complete, or '
         'it raises, or dies, and leaves a name that can still be used. A '
         'name that is taken is refused and what holds it stays as it was. '
         'However plugins are torn, unreadable or failing, nxt starts and '
         'every other plugin is loaded exactly once. Processes creating '
         'different contexts at once do not disturb each other.',
         ['histories', 'crash_points', 'fault_sequences', 'inputs'],
         'every name, interpreter, graph and argument list, every point at '
         'which the disk fails or the process dies, every set of plugins',
         'The tests never create a context and never load a plugin that '
         'fails.',
         ['nxt/__init__.py', 'nxt/plugin_loader.py',
          'nxt/remote/contexts.py', 'nxt/nxt_io.py'],
         [('creating', 'nxt/__init__.py create_context'),
          ('loading', 'nxt/plugin_loader.py load_plugins'),
          ('registry', 'nxt/remote/contexts.py register_context, '
           'find_context_by_name, iter_context_names')],
         {'level': 'exploration', 'note':
          'Seeded random histories of processes with failing disks and '
          'deaths, and for a share of them a sweep over every disk call. '
          'Two processes creating one name at the same moment are left '
          'out.'},
         observe=['contexts each process has and their fields', 'files in '
                  'the plugin directories', 'plugins loaded']),
    prop('C18', 'Layers compose by strength through every history of muting, '
         'soloing, adding and removing',
         'At every point of every history of muting, soloing, overriding, '
         'adding, referencing and removing layers, editing, saving, failing '
         'and reopening, the composed graph is exactly what the layers that '
         'are in effect say: stronger layers win attribute by attribute, '
         'parents and instances are inherited, every instance has every '
         'descendant, and a layer that is muted or not soloed says nothing. '
         'Changing which layers are in effect never changes what a layer '
         'says. Adding a layer adds all it references in order, or nothing; '
         'removing one takes away all it references and nothing else.',
         ['histories', 'crash_points', 'fault_sequences'],
         'every tree of up to eight layers, every history of changes, every '
         'failing disk call while saving or opening',
         'The tests compose fixed graphs and mute one layer.',
         ['nxt/stage.py', 'nxt/nxt_layer.py'],
         [('composing', 'nxt/stage.py Stage.build_stage, comp_proxies'),
          ('muting and soloing', 'nxt/nxt_layer.py SpecLayer.get_muted, '
           'get_soloed, set_mute_over, set_solo_over'),
          ('layer tree', 'nxt/stage.py Stage.new_sublayer, '
           'reference_layers, remove_sublayer')],
         {'level': 'exploration', 'note':
          'Seeded random histories against a model written from the '
          'documented rules. Only roots instance, and only earlier roots or '
          'what is below them.'},
         observe=['composed nodes, attribute values and their sources',
                  'the layer tree, muted and soloed state, files']),
    prop('C19', 'A temp copy of a graph is the graph as it is now, and never '
         'touches the original',
         'Saving a composed graph to a temp folder makes files that open in '
         'any process as exactly the same layers, composed graph and '
         'resolved values the stage has at that moment, unsaved edits, '
         'overrides, unopened references, equal file names and layers of '
         'any folder included, and lead to nothing but each other. Whether '
         'it succeeds, fails or the process dies, the files and the open '
         'layers of the original stay exactly as they were, and another '
         'copy can be made.',
         ['histories', 'crash_points', 'fault_sequences', 'inputs'],
         'every tree of layers in any folders under any names, every edit '
         'history, every layer copied from, every failing disk call',
         'No test makes a temp copy.',
         ['nxt/stage.py', 'nxt/nxt_io.py', 'nxt/nxt_layer.py'],
         [('copying', 'nxt/stage.py Stage.save_to_temp'),
          ('temp folders', 'nxt/nxt_io.py generate_temp_dir, '
           'save_file_data'),
          ('where a layer works', 'nxt/nxt_layer.py SpecLayer.get_cwd, '
           'get_save_data')],
         {'level': 'exploration', 'note':
          'Seeded random trees and histories; every copy is opened by '
          'another process in another directory and compared. '
          'NXT_FILE_ROOTS is not set.'},
         observe=['layers, composed and resolved values, order of children '
                  'of copy and stage', 'files and save data of the '
                  'original']),
    prop('C20', 'Tokens resolve to the first thing that is there, and '
         'resolving leaves no trace',
         'What a token in a value resolves to follows from the composed '
         'graph, the environment and the files alone: file tokens find the '
         'first existing file, going from the layer looked at down through '
         'the layers below it and in each through the search roots in order '
         'and then the folder of the layer; path, contents, list, attribute '
         'and plugin tokens likewise, nested in any way. Lookups and reads '
         'that fail, roots that cannot be entered, files that others create '
         'or remove meanwhile and two threads that resolve at once never '
         'make it raise, never give a file that was not there or skip one '
         'that was, and never change the graph or the working directory.',
         ['inputs', 'fault_sequences', 'schedules', 'histories'],
         'every nesting of tokens, every tree of layers and search roots, '
         'every failing disk call and every moment at which somebody else '
         'changes a file',
         'Tests resolve a few tokens on a quiet disk.',
         ['nxt/stage.py', 'nxt/plugins/file_fallbacks.py',
          'nxt/nxt_path.py', 'nxt/tokens.py'],
         [('tokens', 'nxt/stage.py Stage.resolve, resolve_attr_ref_token, '
           'resolve_contents_token; nxt/tokens.py get_standalone_tokens'),
          ('falling back through layers and roots',
           'nxt/plugins/file_fallbacks.py generate_historical_values, '
           'file_root_fallback; nxt/stage.py Stage.infer_lower_comp'),
          ('path expansion', 'nxt/nxt_path.py full_file_expand')],
         {'level': 'exploration', 'note':
          'Seeded random graphs, files, faults and schedules against a '
          'model that gives every result a run allows. No instances; tokens '
          'inside file tokens are attribute and file tokens; no self '
          'reference.'},
         observe=['resolved attribute values', 'save data of the layers',
                  'the working directory']),
    prop('C21', 'The command line runs the graph as given and its exit '
         'status tells how that went',
         'Running a graph from the command line (exec with or without a '
         'start node, parameters in line or from a file, arguments after '
         '"--", the old form without exec) executes exactly the nodes, with '
         'exactly the values, that executing the same graph with the same '
         'start and parameters does; a parameter is taken as given, the '
         'later one counts, an unknown node among them is passed over. A '
         'command line that is not valid, or parameters or a graph that '
         'cannot be read, run nothing at all. The exit status is 0 only '
         'when the graph was read and finished, whatever fails in node code '
         'or on the disk, also when several are run at once; nothing in the '
         'folder of the graph changes.',
         ['inputs', 'fault_sequences', 'crash_points', 'schedules'],
         'every command line, every file of parameters and every failing '
         'read or node',
         'Tests never run the command line.',
         ['nxt/cli.py', 'nxt/session.py', 'nxt/stage.py'],
         [('command line', 'nxt/cli.py main, execute, CustomParser.error'),
          ('executing in this interpreter',
           'nxt/session.py Session.execute_graph'),
          ('parameters', 'nxt/stage.py Stage.set_runtime_parameters')],
         {'level': 'exploration', 'note':
          'Seeded random graphs, command lines and faults against the model '
          'of execution of C13. The status after exit_graph is not judged; '
          'the editor and remote contexts (C11) are left out.'},
         observe=['nodes that ran and their values', 'exit status',
                  'files']),
    prop('C22', 'Edited values show in the composed graph at once, exactly '
         'as composing anew would show them',
         'Values are edited against a composed graph that is in use: '
         'attributes are added, set, renamed, deleted and commented, code '
         'and enabled states are set, child orders of nodes that are at no '
         'end of an instance are rearranged, on any layer, strong or weak, '
         'of nodes and of the world, however often one after another. After '
         'each of them the composed graph that was handed to the edit shows '
         'for every node, its instances and their instances, its children '
         'and all that inherits from it, what composing the same layers '
         'anew shows: values, where they come from, code, enabled states '
         'and order. Saved, another process composes the same. Saves that '
         'fail in between change nothing of that.',
         ['inputs', 'histories', 'fault_sequences'],
         'every history of edits of values, on every stack of layers',
         'Tests edit one layer, once, and look at the node they edited.',
         ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_node.py'],
         [('attributes', 'nxt/stage.py Stage.node_setattr_data, '
           'add_node_attr, rename_node_attr, delete_node_attr'),
          ('code, enabled', 'nxt/stage.py Stage.set_node_code_lines, '
           'set_node_enabled'),
          ('order', 'nxt/stage.py Stage.set_node_child_order')],
         {'level': 'exploration', 'note':
          'Seeded histories on random stacks of layers. After edits of '
          'structure (nodes, names, instances, mutes) the graph is composed '
          'anew, as nxt itself asks for; the order of nodes that instance '
          'or are instanced is not judged.'},
         observe=['composed graph after each edit',
                  'the graph another process composes']),
]

NOT_APPLICABLE = []
