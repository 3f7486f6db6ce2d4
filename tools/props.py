"""The property list: one entry per property."""
NOT_APPLICABLE = {}
B = "rad-sim/sim/noc/booksim/"
N = "rad-sim/sim/noc/"
D = "rad-sim/sim/dram/DRAMsim3/src/"
SYS = ["inputs", "schedules", "configurations"]
PROPS = [
 dict(id="P01", spec="axis", title="AXI-S transactions cross the NoC bit-exact, exactly once and in order", over=SYS,
  statement="Every AXI-streaming transaction accepted by a NoC slave adapter is delivered exactly once by the master adapter of its destination node, on the interface named by its destination, with tdata, tuser and tlast bit-identical, for every NoC link width, interface width, clock period and back-pressure pattern (receiver at least as wide as the sender). Transactions of one sender interface to one receiver interface arrive in the order they were accepted when each transaction type owns a single virtual channel. Nothing is delivered that was not sent, and every accepted transaction is eventually delivered when receivers keep accepting and every virtual channel's own buffer can hold a whole packet.",
  qtext="every payload, packet length, link width, set of senders and receivers, clock ratio and stall pattern",
  why="the example designs run one payload shape at one link width and one clock ratio with fixed traffic; slicing at flit boundaries, stalls mid-packet and interleaved packets are not sampled",
  files=[N + "axis_slave_adapter.cpp", N + "axis_master_adapter.cpp", N + "noc_utils.cpp", N + "sc_flit.cpp", N + "radsim_noc.cpp"],
  mech=[("axis_slave_adapter::InputInterface/InputPacketization", N + "axis_slave_adapter.cpp"), ("set_flit_payload", N + "noc_utils.cpp"), ("sc_flit copy and assignment", N + "sc_flit.cpp"), ("axis_master_adapter::OutputDepacketization/OutputInterface/write_sc_packet_to_axis_output", N + "axis_master_adapter.cpp")],
  note="Packetization, slicing, flit copying, depacketization and output driving proved for every input and state at the compiled widths; end-to-end delivery through the network is exercised by the bounded random-system harness (3 link widths)."),
 dict(id="P02", spec="axis", title="Flits keep destination, type and the virtual channels of their type", over=SYS,
  statement="Every flit of an AXI-streaming transaction enters the NoC at its adapter's node carrying the transaction's type, destination interface, remote node and RAD, addressed to the local destination node when the destination is on this RAD and to the portal node otherwise, and is injected on the first virtual channel configured for its type. At ejection the same fields are restored from the network flit and the flit is stored in the FIFO of its own virtual channel; at no adapter does a flit of one transaction type appear on a virtual channel that belongs to another type.",
  qtext="every destination, transaction type, virtual-channel assignment and RAD identifier",
  why="the tests use one virtual-channel map, and almost no traffic leaves its RAD, so a wrong field or channel stays invisible until classes deadlock or a packet crosses RADs",
  files=[N + "axis_slave_adapter.cpp", N + "axis_master_adapter.cpp", N + "noc_utils.cpp"],
  mech=[("axis_slave_adapter::InputInjection", N + "axis_slave_adapter.cpp"), ("axis_master_adapter::OutputEjection", N + "axis_master_adapter.cpp"), ("VCIDFromType", N + "noc_utils.cpp")],
  note="Injection, ejection and the type-to-channel map proved for every flit, state and configuration; the routers' class discipline is exercised by the bounded harness."),
 dict(id="P03", spec="axis", title="Adapters respect flow control: one ready, bounded FIFOs, no lost credit", over=SYS,
  statement="An AXI-streaming slave adapter offers ready to at most one interface at a time, only to one that is valid while its FIFOs have room, and to some valid interface whenever there is room. A flit enters the network only when the downstream buffer has space (and, for a head flit under wait-for-tail-credit, its virtual channel is free), is otherwise kept unchanged, and every adapter FIFO stays within its depth; a packet is only opened once completely received, and only if its output FIFO has room. Every flit that leaves an ejection FIFO gives back exactly one credit for its virtual channel, the NoC returns each node's credits one per cycle in order, and once all traffic has drained every buffer, virtual channel and credit is free again.",
  qtext="every arrival and stall pattern, clock ratio, FIFO depth and number of interfaces",
  why="a lost credit or an overfull FIFO needs particular clock ratios and back-pressure that the example designs never produce, and shows up only as a hang long afterwards",
  files=[N + "axis_slave_adapter.cpp", N + "axis_master_adapter.cpp", N + "radsim_noc.cpp"],
  mech=[("axis_slave_adapter::InputReady/InputInterface/InputInjection", N + "axis_slave_adapter.cpp"), ("axis_master_adapter::OutputEjection/OutputDepacketization", N + "axis_master_adapter.cpp"), ("radsim_noc::Tick", N + "radsim_noc.cpp")],
  note="Ready arbitration, acceptance, injection, ejection, depacketization and the NoC's credit return proved for every state; global draining is exercised by the bounded harness."),
 dict(id="P04", spec="aximm", title="AXI-MM requests reach the addressed slave bit-exact and exactly once", over=SYS,
  statement="Every read request, write request and write-data beat that a NoC slave adapter accepts from an AXI-MM master is presented exactly once to the AXI-MM slave attached to the node named by its address (write data: the node of the preceding write request), with id, address, burst, size, length, user, data and last bit-identical, for every NoC link width and payload. Offered requests are eventually accepted, and so is every beat of a write burst after its request; the beats follow the request in order. A packet that the receiver does not take is kept and presented again, and a packet is only opened once completely received.",
  qtext="every address, payload, burst length, link width, set of masters and slaves and back-pressure pattern (one write burst at a time per master, one virtual channel per transaction type, whose buffer holds a whole packet)",
  why="the tests use one link width, mostly zero burst/size fields and requests that fit one or two flits, so wrong bit positions, flit counts at width boundaries and stalls are not sampled",
  files=[N + "aximm_slave_adapter.cpp", N + "aximm_master_adapter.cpp", N + "noc_utils.cpp", N + "sc_flit.cpp"],
  mech=[("aximm_slave_adapter::InputInterface/InputPacketization/InputInjection", N + "aximm_slave_adapter.cpp"), ("aximm_master_adapter::OutputEjection/OutputDepacketization/OutputInterface", N + "aximm_master_adapter.cpp")],
  note="Acceptance, packetization, injection, ejection, depacketization and field layout proved for every input and state at two link widths; delivery through the network is exercised by the bounded random-system harness."),
 dict(id="P05", spec="aximm", title="AXI-MM responses return to the requester bit-exact and exactly once", over=SYS,
  statement="Every read-data beat and write response that an AXI-MM slave hands to its NoC master adapter is presented exactly once to the master attached to the node named in the top bits of its user field, with id, response code, user, data and last bit-identical, and the beats of one burst arrive in order. Responses are offered to the requester only when it shows ready; otherwise they are kept unchanged.",
  qtext="every response payload, requester, link width and stall pattern",
  why="the tests read a few fixed values with idle networks; response code, user bits and stalled responses are never compared",
  files=[N + "aximm_master_adapter.cpp", N + "aximm_slave_adapter.cpp", N + "noc_utils.cpp"],
  mech=[("aximm_master_adapter::InputInterface/InputPacketization/InputInjection", N + "aximm_master_adapter.cpp"), ("aximm_slave_adapter::OutputEjection/OutputDepacketization/OutputInterface", N + "aximm_slave_adapter.cpp")],
  note="All response-path adapter functions proved for every input and state at two link widths; delivery through the network is exercised by the bounded random-system harness."),
 dict(id="P06", spec="aximm", title="An AXI-MM address names its slave's node on its NoC", over=["inputs", "configurations"],
  statement="The base address of an AXI-MM port placed on node n of NoC k carries n in the address bits that the NoC adapters decode and k directly below; every address from that base up to the size of the port's range decodes to node n, fits the address bus, and lies in no other port's range. Adapters send a request to exactly the node in the top bits of its address, and write data to the node of the preceding accepted write request.",
  qtext="every node number, number of NoCs (1 to 8), NoC number, node-field width and offset within the range",
  why="the test designs use one NoC and one node-field width, where a wrong shift still lands on the right node",
  files=["rad-sim/sim/design_context.cpp", N + "aximm_slave_adapter.cpp", N + "aximm_master_adapter.cpp"],
  mech=[("DetermineBaseAddress", "rad-sim/sim/design_context.cpp"), ("GetInputDestinationNode", N + "aximm_slave_adapter.cpp")],
  note="Address layout and destination decode proved for every node, NoC and offset with 1 to 8 NoCs at two node-field widths."),
 dict(id="P08", spec="arbiters", title="Arbiters grant exactly one requester: top priority first, then fair order",
  statement="For every arbiter size, set of requests, priorities and history, an arbitration returns no winner exactly when nobody requested; otherwise the winner is one of the requesters, no requester has a higher priority, and among requesters of equal priority it is the first one in the arbiter's service order, whose identifier and priority are reported. In a round-robin arbiter the service order starts just after the last served requester and wraps around; in a matrix arbiter it is least-recently-served first (initially the highest index first); a tree arbiter applies the order inside each group and then between the group winners. Only confirming a grant rotates the order, and clearing removes every pending request and nothing else.",
  over=["inputs", "histories", "configurations"], qtext="every arbiter size, every request/priority set, every history of arbitrate / update / clear operations",
  why="the example designs only ever drive a few arbiters with default round-robin configuration and never look at a grant; priority ties, wrap-around and long histories are not sampled",
  files=[B + "arbiters/arbiter.cpp", B + "arbiters/roundrobin_arb.cpp", B + "arbiters/roundrobin_arb.hpp", B + "arbiters/matrix_arb.cpp", B + "arbiters/tree_arb.cpp"],
  mech=[("RoundRobinArbiter::AddRequest/Arbitrate/UpdateState/Clear", B + "arbiters/roundrobin_arb.cpp"), ("RoundRobinArbiter::Supersedes", B + "arbiters/roundrobin_arb.hpp"), ("MatrixArbiter::Arbitrate/UpdateState", B + "arbiters/matrix_arb.cpp"), ("TreeArbiter", B + "arbiters/tree_arb.cpp")],
  note="All operations of the round-robin and matrix arbiters proved for every size and history against contracts on the real code (representation invariant + ghost service order); tree arbiters are covered by the bounded differential harness only. Trusts clang's AST, the VC generator, the std::vector theory and z3."),
 dict(id="P10", spec="flow", title="Sender credit state equals the flits outstanding in the downstream buffer", over=["inputs", "histories", "configurations"],
  statement="A sender's record of a downstream buffer counts, in total and per virtual channel, exactly the flits sent minus the credits returned. A virtual channel taken for a packet belongs to that packet until its tail flit is sent or, under wait-for-tail-credit, until the last credit after the tail returns, and is free in every other state. For each buffer policy the number of slots reported available is exact (private: the VC's own slots; shared: reserved plus private plus shared slots; limited, dynamic, shifting and feedback: additionally capped by the VC's current limit), a VC is reported full exactly when none is available, sending while not full never overflows any buffer, and returning all credits makes every slot available again.",
  qtext="every configuration, and every legal history of take / send / credit operations on any virtual channels",
  why="the tests use one private-buffer configuration at low load; shared pools, reserved slots and credits that race with tails are never exercised, and an accounting slip only shows as a distant deadlock or overflow",
  files=[B + "buffer_state.cpp", B + "buffer_state.hpp"],
  mech=[("BufferState::SendingFlit/ProcessCredit/TakeBuffer", B + "buffer_state.cpp"), ("buffer policies", B + "buffer_state.cpp"), ("IsFullFor/AvailableFor/OccupancyFor", B + "buffer_state.hpp")],
  note="Credit state and the private, shared, limited, dynamic and feedback policies proved for every state; shifting and simple-feedback policies and construction by the bounded differential harness."),
 dict(id="P11", spec="routing", title="Dimension-order routing takes every flit by a shortest path to its destination", over=["inputs", "configurations"],
  statement="On a mesh or torus of any radix and number of dimensions, every router forwards a flit over exactly one output that brings it one hop closer to its destination in the first dimension still to be corrected (XY-YX: of its half's order), and ejects it exactly at its destination, so its hops equal the distance; a mesh route never uses a wrap-around link. Output k of a router is wired to the neighbour that the routing means. The virtual channels offered belong to the flit's class; packets that wrap round a torus ring and those that do not, and XY and YX packets, are never offered a common one while on their way.",
  qtext="every radix, number of dimensions, pair of nodes, input port, class and virtual-channel range (XY-YX: two dimensions)",
  why="the tests route between a few nodes of one small mesh with one class layout; a wrong turn, neighbour or channel half for other sizes, dimensions or odd channel counts only shows as a rare deadlock or a longer path",
  files=[B + "routefunc.cpp", B + "networks/kncube.cpp", B + "misc_utils.cpp"],
  mech=[("dor_next_mesh/dor_next_torus/dim_order_mesh/dim_order_torus/xy_yx_mesh", B + "routefunc.cpp"), ("KNCube::_BuildNet/_LeftNode/_RightNode/_LeftChannel/_RightChannel", B + "networks/kncube.cpp")],
  note="Routing functions and network construction proved for every size and state (digits by induction, quotients opaque with proved facts); a bounded harness builds random networks from the real classes and follows every route over their links."),
 dict(id="P12", spec="flow", title="Links deliver after exactly their latency; buffers keep every VC in FIFO order", over=["inputs", "histories", "configurations"],
  statement="A flit or credit sent on a channel of latency L comes out exactly L-1 cycles after the cycle in which it was taken in, once, in sending order, and at no other time; a cycle with nothing due yields nothing. An input buffer returns the flits of each virtual channel in arrival order, unchanged except for their priority, reports emptiness, fullness and occupancy exactly, and never accepts a flit beyond its size or a flit of another packet between the head and tail of a packet in the same virtual channel.",
  qtext="every latency, every send pattern, every history of additions and removals on any virtual channel",
  why="the tests use latency-1 links and look only at final results; timing, ordering and boundary occupancies are not observed",
  files=[B + "channel.hpp", B + "flitchannel.cpp", B + "vc.cpp", B + "vc.hpp", B + "buffer.cpp", B + "buffer.hpp"],
  mech=[("Channel<T>::ReadInputs/WriteOutputs", B + "channel.hpp"), ("VC::AddFlit/RemoveFlit", B + "vc.cpp"), ("Buffer::AddFlit/RemoveFlit/Full", B + "buffer.cpp")],
  note="All operations proved for every latency, queue and flit against contracts that chain over cycles (inductive invariant on due times); a differential harness replays failures."),
 dict(id="P13", spec="drammap", title="DRAM addresses map one to one onto channel, rank, bank, row and column", over=["inputs", "configurations"],
  statement="For every order of the address fields, every byte address decodes to a channel, rank, bank group, bank, row and column inside the configured memory; all bytes of one line decode to the same place, and different lines within the capacity to different places. A request is given to the channel its address decodes to, the rank count is the number of whole ranks in the configured channel size (at least one), and the memory controller's translation keeps every field of a user's address, puts the request on the requested channel and finds that channel again from the translated address.",
  qtext="every address, geometry, bus width, burst length and field order (six distinct fields)",
  why="the tests use one address mapping and addresses of a few low bits, so a wrong position or mask for another order, or for high rank, group and row bits, is not exercised",
  files=[D + "configuration.cc", D + "dram_system.cc", D + "common.cc", "rad-sim/sim/dram/mem_controller.cpp"],
  mech=[("Config::SetAddressMapping/AddressMapping/CalculateSize", D + "configuration.cc"), ("BaseDRAMSystem::GetChannel", D + "dram_system.cc"), ("mem_controller::AddressMapping/ChannelFromAddr", "rad-sim/sim/dram/mem_controller.cpp")],
  note="All mapping functions proved for every address, width and field order (the controller's translation order by order, all 720); a bounded harness replays random configurations of the memory's decoder."),
 dict(id="P14", spec="dramctl", title="DRAM commands obey the device's state machine and timing parameters", over=["inputs", "histories", "configurations"],
  statement="Every command a DRAM channel controller issues is legal for the bank's state (reads and writes only to the open row, activates only to a closed bank, refreshes only with the affected banks closed, nothing but an exit to a rank in self-refresh) and comes no earlier than every delay the configuration demands after each earlier command to the same bank, bank group, rank or other rank, including the four-activate and thirty-two-activate windows. Refreshes are requested for every rank (or bank) in turn at the refresh interval and are eventually served; no refresh is requested for, and no rank with a waiting refresh enters, self-refresh.",
  qtext="every DRAM protocol, geometry, timing parameter set (non-negative delays), page policy, refresh policy and request stream",
  why="the tests run a few short traces on one HBM configuration and check data, never the command stream; a delay that is a cycle short or missing for one pair of commands changes no test result",
  files=[D + "bankstate.cc", D + "channel_state.cc", D + "timing.cc", D + "refresh.cc", D + "command_queue.cc", D + "controller.cc"],
  mech=[("BankState/ChannelState", D + "channel_state.cc"), ("Timing", D + "timing.cc"), ("Refresh", D + "refresh.cc"), ("CommandQueue::GetCommandToIssue/FinishRefresh", D + "command_queue.cc"), ("Controller::ClockTick/IssueCommand", D + "controller.cc")],
  note="Bank state machine, timing table and its application, activation windows, refresh generation and service, command choice and the controller's cycle proved for every state, geometry and delay; a bounded harness monitors whole random runs."),
 dict(id="P15", spec="dramctl", title="DRAM transactions complete exactly once, in order per address", over=["inputs", "histories", "configurations"],
  statement="Every transaction a DRAM controller accepts is pending until it is answered, and is answered exactly once: a write when its write delay has passed, a read no earlier than its read delay after its column command (or at once from a pending write of the same address). A pending transaction always waits in a transaction queue, a command queue or the return queue, never in two; queues never exceed their sizes; a read never overtakes an older write of its address nor a write an older read; readiness is reported exactly while there is room.",
  qtext="every address stream, mix of reads and writes, queue structure and size, page and refresh policy",
  why="the tests issue few requests at a time to distinct addresses; merged reads, forwarded writes, full queues and draining are not sampled",
  files=[D + "controller.cc", D + "command_queue.cc", D + "refresh.cc"],
  mech=[("Controller::AddTransaction/ScheduleTransaction/IssueCommand/ReturnDoneTrans/ClockTick", D + "controller.cc"), ("CommandQueue::AddCommand/EraseRWCommand/GetFirstReadyInQueue", D + "command_queue.cc")],
  note="All controller and command-queue operations proved against the class invariant for every state (one command a cycle; with HBM's two commands a cycle loss-freedom is bounded only); a bounded harness checks whole random runs."),
]
