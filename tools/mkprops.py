#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Connections are lossless, ordered and exact",
 "While the receiving end of a connection stays open, every message the sending component produces is delivered to the receiving component exactly once, byte for byte, in the order produced; nothing else is delivered. This holds for every kind of component on either end and for any relative speed of the two, up to and including the messages still queued when the sender finishes.",
 ["schedules","inputs","configurations"],
 "every network of components, every interleaving of producers, consumers and stalls, every message content",
 "The unit tests push a few fixed messages through one component at a time; they never stall, race or close ends at arbitrary moments, nor chain components.",
 ["src/motion.rs","src/junction.rs","src/faucet.rs","src/regulator.rs","src/buffer.rs","src/launch.rs","src/drain.rs","src/waiter.rs"],
 [("read one message, write it to every output, then read the next","src/motion.rs: motion_worker, motion"),("bounded FIFO channels whose queue survives the closing of the sender","async_std::channel")],
 [("queue of a connection","messages sent and not yet taken","every Pull::Receiver / Push::IoSender pair")],
 ["channel ends given to a component","spy stream","files and streams written by drains"])
p("C02","Messages are lines, however the bytes arrive",
 "The bytes read from a source (a file, standard input, or a program's output) are cut into messages right after each LF (so CR LF stays together), and a final piece without a line ending is still delivered as the last message when the stream ends. The messages joined together equal the bytes read, and they do not depend on how the bytes were chunked by the reads, on line length, or on the byte values.",
 ["inputs","schedules"],
 "every byte string and every way of splitting it into reads",
 "The unit test feeds two fixed strings in a handful of chunkings to a private function.",
 ["src/motion.rs"],[("scan of the accumulated bytes for a separator before reading more, remainder returned at end of stream","src/motion.rs: motion_read_buffer")],
 [("overflow","bytes read and not yet delivered","ReadSplitControl")],["messages seen on the connection after the source"])
p("C03","A junction copies every message to every output",
 "Every message a junction takes from any of its inputs is written to each of its outputs that is still accepting, exactly once, and all outputs receive the messages in the same order. That common order is an interleaving of the inputs in which each input keeps its own order.",
 ["schedules","configurations"],
 "any number of inputs and outputs, every interleaving of arrivals, stalls and closings",
 "Tested with one fixed arrangement of preloaded inputs and never-full outputs.",
 ["src/junction.rs","src/motion.rs"],[("each message is written to all outputs before another one is read","src/motion.rs: motion_worker"),("one pass over the inputs of a priority","src/junction.rs: junction_motion_worker")],
 (),["output channels of a junction","drains behind a junction"])
p("C04","A junction serves inputs by priority and equals fairly",
 "A junction does not turn to the inputs of one priority number while an input with a smaller priority number has a message waiting. Inputs with the same priority number are served in turns: once the junction has turned to them, each with a waiting message is served once before any is served again, so none can starve another.",
 ["schedules","configurations","histories"],
 "every assignment of priorities (negative and positive, equal or different) and every arrival order",
 "One unit test with preloaded inputs: it does not reach arrivals while blocked, three or more priorities with ties, or priorities given in a configuration.",
 ["src/junction.rs","src/utils.rs","src/waiter.rs","src/config.rs"],[("inputs sorted and grouped by priority, first group polled first, restart after any read","src/junction.rs: initialize_stdin, iteration"),("the priority in a connection reaches add_input","src/waiter.rs: join")],
 [("stdin","priority groups of inputs still open","Junction")],["order of messages on the outputs of a junction while its inputs are backed up"])
p("C05","A junction ends when, and only when, all inputs ended",
 "The outputs of a junction are closed after every one of its inputs has ended and everything these sent has been written, and not before. An input which ends does not disturb the others, whatever the order in which inputs of equal or different priority end.",
 ["schedules","histories"],
 "every order of endings, sends and stalls over the inputs",
 "The tests end all inputs of one fixed arrangement before the junction starts.",
 ["src/junction.rs","src/utils.rs"],[("finished inputs are removed at the end of a round","src/junction.rs: iteration, src/utils.rs: remove_vec_vec_index, remove_vec_vec"),("outputs closed when no input is left","src/junction.rs: iteration")],
 (),["open/closed state of the ends of a junction"])
p("C06","A buffer is an unbounded FIFO with truthful size reports",
 "A buffer always accepts more input, however slowly or never its output is consumed, and delivers what it accepted in order without loss, including after its input has ended. The sizes it reports to whoever monitors it settle at the number of messages it holds (to within the one in transit) and end at zero when it has delivered everything.",
 ["schedules","histories"],
 "every interleaving of producer, consumer and monitor, any backlog",
 "One test with a fixed sequence of sends and receives; backlog, end of input with a backlog, and slow monitors are not reached.",
 ["src/buffer.rs","src/motion.rs"],[("two motions around an unbounded channel","src/buffer.rs: start"),("counting of the written and read notifications","src/buffer.rs: total_in_buffer")],
 [("size","messages in the unbounded channel as counted","total_in_buffer")],["input and output channels of a buffer","size monitor channel"])
p("C07","A paused regulator passes at most one more message",
 "After a regulator has been asked to pause it forwards at most one further message, and then nothing until it is asked to resume; then it carries on with the next message, losing, duplicating and reordering nothing. Asking for a pause or a resume never blocks the asker, whatever the regulator is doing, and repeated requests behave like the last one.",
 ["schedules","histories"],
 "every interleaving of pause, resume, arrivals, consumption and end of input",
 "One timing based test with a single pause and resume on a busy regulator.",
 ["src/regulator.rs"],[("control is examined after each forwarded message","src/regulator.rs: start_secret/control"),("pause and resume requests","src/regulator.rs: RegulatorControl")],
 [("control","pending pause/resume requests","Regulator")],["channels of a regulator","completion of pause/resume"])
p("C08","Regulators follow the watermarks of monitored buffers",
 "When the messages held in the buffers a regulator monitors together reach the high watermark, the regulator stops passing messages; it starts again once together they have fallen to the low watermark, and between the two it stays as it was. Buffers it does not monitor have no influence, and a regulator never stays shut once its monitored buffers have finished.",
 ["schedules","configurations","histories"],
 "every watermark pair, set of monitored buffers, and history of fill and drain",
 "No test runs a regulator with buffers; the unit tests stop at the pause/resume interface.",
 ["src/waiter.rs","src/regulator.rs","src/buffer.rs","src/config.rs"],[("sum of last reported sizes compared with the watermarks","src/waiter.rs: manage_regulator_from_buffers"),("settings handed from the configuration","src/waiter.rs: configure_regulator, get_waiter")],
 [("regulator_status","whether the regulator was last told to pause","manage_regulator_from_buffers")],["flow through the regulator against the number of messages in the buffers"])
p("C09","Back pressure: only buffers hold unbounded data",
 "A component other than a buffer stops taking input when its output is not consumed: the number of messages taken from its inputs and not yet taken from its outputs stays below a small fixed bound which does not depend on the volume of data. So a stalled consumer stalls its producers back to the source instead of accumulating data.",
 ["schedules","inputs"],
 "every volume of input and every stall",
 "No test lets an output fill up.",
 ["src/motion.rs","src/junction.rs","src/faucet.rs","src/regulator.rs","src/launch.rs"],[("bounded channels and one message in the hand","src/junction.rs, src/faucet.rs, src/regulator.rs, src/launch.rs: add_output"),("the write is awaited before the next read","src/motion.rs: motion_worker")],
 (),["lengths of the channels around a stalled component","bytes consumed from a source with a stalled drain"])
p("C10","Terminate, Finish and Consume are honoured",
 "When the receiving end of a connection has closed and a message is sent on it: Consume discards the message and the sender carries on as before; Finish makes the sender stop without error, closing its own inputs, once none of its outputs accepts any more; Terminate makes the sender fail with an error, closing all its inputs and outputs. Outputs which are still accepting lose nothing because a Consume or Finish sibling closed, and the policy used is the one written on that connection.",
 ["fault_sequences","schedules","configurations"],
 "every combination of policies on the outputs, and every point at which a receiver closes",
 "Two unit tests with one or two outputs closed before the first or second message.",
 ["src/motion.rs","src/junction.rs","src/faucet.rs","src/regulator.rs","src/buffer.rs","src/launch.rs","src/config.rs"],[("policy dispatch on a failed write","src/motion.rs: motion_worker"),("handling of a closed output","src/faucet.rs, src/regulator.rs: start_secret"),("policy parsed from the pipe symbol","src/config.rs: load_connection_from_string")],
 (),["state and result of a component after its receivers closed"])
p("C11","Runs end, with everything flushed, and failures do not hang",
 "When all sources have ended and all programs have exited, pa2 exits, after every drain holds all the data sent to it. When a component fails (its file cannot be opened or written, or a Terminate connection breaks) everything connected to it is closed so that, as soon as the programs and sources involved stop, pa2 exits and does not hang.",
 ["schedules","fault_sequences","configurations"],
 "every acyclic configuration, every failing component, every amount of data in flight",
 "The end to end tests run three good configurations; no failing component is tested.",
 ["src/waiter.rs","src/motion.rs","src/faucet.rs","src/junction.rs","src/drain.rs","src/buffer.rs","src/launch.rs"],[("closing of outputs at the end and on failure","src/motion.rs: motion, motion_close; src/faucet.rs, src/junction.rs: start"),("all components are joined","src/waiter.rs: start")],
 (),["exit of pa2","contents of drains at exit","closed channels of a failed component"])
p("C12","Exit codes are reported and every program is waited for",
 "A launch with a connected exit port sends exactly one message on it, the decimal exit code of the program or an underscore if a signal ended it, after all its output has been delivered, and then closes the port. pa2 does not exit before every program it started has exited, whichever of the program's outputs are connected.",
 ["inputs","schedules","configurations"],
 "every exit code and signal, every set of connected ports, every timing of exit against output",
 "One unit test with one exit code; waiting is not tested.",
 ["src/launch.rs","src/config_manip.rs"],[("status awaited after the three motions ended","src/launch.rs: start"),("exit watchers added for programs without a connected exit port","src/config_manip.rs: identify_required_spies_for_launch_exits, add_launch_exit_spies")],
 (),["exit port connection","moment pa2 exits"])
p("C13","Each output port carries its own stream",
 "What a program writes to standard output appears only on the connections from its out port, what it writes to standard error only on those from its err port, and only its exit code on those from its exit port. A stream whose port is not connected is discarded, without blocking the program and without appearing in another port or in pa2's own output.",
 ["inputs","configurations","schedules"],
 "every subset of connected ports and every mix of writes",
 "One end to end test connects out ports only; one unit test uses separate ports with one line each.",
 ["src/launch.rs","src/waiter.rs","src/config.rs"],[("pipes and pushes per port, null for unconnected ones","src/launch.rs: start, add_output"),("port passed to add_output","src/waiter.rs: join, get_src_pull")],
 (),["connections from each port"])
p("C14","Implicit junctions preserve the user's graph",
 "If several connections start at the same output, each destination receives every message of it; if several end at the same component, that component receives the messages of all of them; the run behaves as the connections read, with the policy and priority written on each connection in force. Connections, components and settings the user wrote are neither dropped nor changed, and what is added clashes with none of their names.",
 ["configurations","inputs"],
 "every set of connection sets, with any sharing of sources and destinations, duplicate edges, user components with generated-looking names",
 "The unit test of this module does not compile in the pinned tree and covers one example.",
 ["src/config_manip.rs","src/waiter.rs"],[("splitting into pairs","src/config_manip.rs: break_apart, rebuild_pair_up_connections_folder"),("junction insertion","src/config_manip.rs: add_junctions"),("fresh names","src/config_manip.rs: generate_new_key")],
 (),["configuration returned by the manipulation","drains of a run"])
p("C15","Join strings mean what they say",
 "A join string is accepted exactly if it is empty or is a sequence of at least two components `[priority]type:name[port]` separated by pipes (`|`, `|T|`, `|F|`, `|C|`, with optional spaces around), the first without priority and the last without port, types in full or as first letter. It yields those components in order, with priority 0, port out and policy Terminate where none is written.",
 ["inputs"],
 "every string over the grammar's alphabet and every string near it",
 "A handful of literal examples.",
 ["src/config.rs"],[("PEG grammar and attachment of pipe types","src/config.rs: load_connection_from_string")],
 (),["result of parsing, manipulated configuration"])
p("C16","Bad configurations are reported and start nothing",
 "Lint reports exactly: join strings which do not parse, components used in connections without their required settings (faucet, drain, launch, regulator), settings not used in any connection, and monitored buffers which are in no connection. pa2 process refuses a configuration with any of these except unused settings, exits non-zero naming the culprit on standard error, and neither starts a program nor touches a drain's file.",
 ["configurations"],
 "every configuration: subsets of settings and connections, several errors at once",
 "Two lint unit tests and one end to end lint test.",
 ["src/config.rs","src/bin/pa2.rs","src/waiter.rs"],[("lint","src/config.rs: Config::lint, convert_connections"),("refusal before anything starts","src/bin/pa2.rs: process_user_config_action; src/waiter.rs: get_waiter")],
 (),["lint output","exit code and side effects of process"])
p("C17","Config commands change exactly what they name",
 "Each pa2 config editing command prints the configuration it read with exactly the named setting of the named component set to the given value, creating the component's entry if needed and leaving everything else as it was. The printed JSON can be fed back as configuration, so a sequence of commands accumulates, and a configuration and its printed form mean the same.",
 ["histories","inputs"],
 "every sequence of editing commands with any values, from JSON or YAML",
 "No test runs the editing commands.",
 ["src/bin/pa2.rs","src/config.rs","src/config_io.rs"],[("one function per setting","src/config.rs: *_set_*, connection_join"),("command dispatch","src/bin/pa2.rs")],
 (),["standard output of pa2 config commands"])
p("C18","Loops through a buffer do not deadlock",
 "A configuration whose every cycle passes through a buffer (and whose regulators, if any, keep feeding within the watermarks) never reaches a state in which messages are waiting although every program and outside consumer is willing to go on; in particular monitoring a buffer, pausing and resuming a regulator never block the flow through the buffer. Without a regulator the same holds for any amount of data going round.",
 ["schedules","configurations"],
 "every interleaving of the loop's components and any amplification by the programs",
 "The end to end loop test sends a few lines through one small loop.",
 ["src/buffer.rs","src/regulator.rs","src/waiter.rs","src/junction.rs"],[("unbounded buffer","src/buffer.rs"),("non-blocking control of the regulator and back-off of the monitors","src/regulator.rs, src/waiter.rs: manage_regulator_from_buffers, src/buffer.rs: total_in_buffer")],
 (),["progress of loop runs"])
p("C19","Exit status and standard output of pa2 can be trusted",
 "pa2 process exits zero exactly if the configuration was accepted and no component failed; otherwise it exits non-zero and standard error names the component concerned. Its standard output carries nothing but the bytes of the drains bound to it, and standard error nothing but the bytes of the drains bound to that and the error report.",
 ["configurations","fault_sequences"],
 "every failing component and fault, every configuration which succeeds",
 "One end to end test checks the exit code of one bad configuration.",
 ["src/bin/pa2.rs","src/waiter.rs","src/bin_support.rs","src/config_manip.rs"],[("collection of component results","src/waiter.rs: start/folder"),("report and exit code","src/bin/pa2.rs: main; src/bin_support.rs")],
 (),["exit code, standard output and error of pa2"])
p("C20","The spy stream is a faithful log of the traffic",
 "With a spy attached, every message a component writes to a connection appears on the spy stream exactly once, labelled with the right source, port, destination and content, in the order of the writes. Attaching a spy does not change what is delivered.",
 ["schedules","configurations"],
 "every network, every interleaving",
 "Unit tests look at the spy of a single step with fixed data.",
 ["src/motion.rs","src/launch.rs","src/waiter.rs"],[("spy message sent after each write","src/motion.rs: motion_worker; src/launch.rs: start"),("spy handed to every component","src/waiter.rs: start")],
 (),["spy channel"])
p("C21","The graph shows exactly the configured network",
 "pa2 graph draws exactly one kind of node per component with that component's shape and label, and an edge for every connection of the configuration from its source to its destination, labelled with the port when this is not the default, and nothing else in the diagram. Diagram-only and legend-only output contain just that part.",
 ["configurations"],
 "every configuration",
 "No test runs graph.",
 ["src/graph.rs","src/bin/pa2.rs","src/config.rs"],[("collection of connections and components","src/graph.rs: convert_connection_to_graph_connection, convert_connection_components_fold"),("drawing","src/graph.rs: get_diagram")],
 (),["DOT output"])
p("C22","Faucets and drains are bound to what the config says",
 "A faucet reads standard input for \"-\", nothing for an empty source, and otherwise the whole named file; a drain writes standard output for \"-\", standard error for \"_\", nowhere for \"/dev/null\" or an empty destination, and otherwise replaces the contents of the named file. At exit each destination holds exactly the bytes sent to its drain, and a source or destination which cannot be opened or written is reported as an error.",
 ["inputs","configurations","fault_sequences"],
 "every binding, content (empty, unterminated, binary, large), and open or write failure",
 "Tests use one input file and standard output only.",
 ["src/faucet.rs","src/drain.rs","src/motion.rs","src/waiter.rs"],[("choice of source","src/faucet.rs: start"),("choice of destination","src/drain.rs: start"),("flush when finished","src/motion.rs: motion_close")],
 (),["files and streams"])
p("C23","Programs run as configured, with ends of stream passed on",
 "Each launch starts its program exactly once with the configured command, arguments in order, environment additions and working directory, whatever characters these contain. The program's standard input carries exactly the messages of its incoming connection and reaches end of file when that ends (at once if there is none), and the end of its output is passed on when the program closes it.",
 ["inputs","configurations","schedules"],
 "every argument, environment and path value, every timing of closing",
 "One unit test with fixed arguments and environment.",
 ["src/launch.rs","src/waiter.rs","src/config.rs"],[("command construction","src/launch.rs: environment_configure, start"),("settings handed from the configuration","src/waiter.rs: get_waiter")],
 (),["what the program observes"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
