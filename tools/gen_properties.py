#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

E = "EigenIPC/"
SRV, CLN, MU = E+"src/Server.cpp", E+"src/Client.cpp", E+"src/MemUtils.hpp"

prop("C01", "At most one unforced server per tensor; a second one does no harm",
 "For one namespace and name, while a server exists (constructed and neither closed nor crashed), creating a further server without forcing fails with an exception, so at most one unforced server ever exists or runs. "
 "The failed attempt changes nothing for the incumbent and its clients: tensor contents, client count, running state and ability to attach, read and write stay exactly as they were.",
 ["schedules","histories"],
 "every interleaving of two or more unforced servers being constructed, run, stopped, closed and destroyed with clients attaching and accessing data",
 "The tests never create two servers on one name, and all but one of their servers use force_reconnection.",
 [SRV, MU], [("server semaphore + data semaphore acquired during construction/run","Server::Server, Server::run"),("timed acquisition failing with an exception","MemUtils::acquireSemTimeout")],
 ["return/exception of server construction and run","incumbent's read/write/getNClients results"],
 [("server semaphore","taken by the running server","SharedMemConfig.hpp mem_path_server_sem"),("data semaphore","held by a server from construction to its first run","SharedMemConfig.hpp mem_path_data_sem")])

prop("C02", "Safe reads and writes are atomic and never block",
 "For endpoints created with safe access, every read that succeeds returns the tensor exactly as some sequence of whole successful writes left it, and a write that succeeds is applied completely: no interleaving of servers and clients ever exposes or leaves a partly applied write. "
 "Safe reads and writes never wait: when another endpoint holds the tensor they return false without touching tensor or output, and whether they succeed or fail they leave the tensor free for the next access. "
 "This holds across stop and re-run of the server and for attach, detach and client counting going on at the same time.",
 ["schedules","histories"],
 "every interleaving, down to single element accesses, of safe reads and writes of all endpoints, through both the matrix and the view overloads, with attach/detach/stop/run",
 "Tests run one reader and one writer free-running under the OS scheduler and retry until success; they cannot steer a switch into the middle of a copy, nor observe that a failed access left the lock taken.",
 [SRV, CLN, MU], [("try-acquire of the data semaphore around each copy","Server::read/write, Client::read/write"),("release on success and failure","_releaseData")],
 ["values returned by read","boolean results of read/write"])

prop("C03", "Manual data acquisition is exclusive and hands over reliably",
 "After a data-acquire call returns on one endpoint and until that endpoint releases, no other endpoint's acquire returns and every other endpoint's safe read and write return false with no effect; endpoints created without safe access can use this to make compound updates atomic. "
 "A release makes the tensor available again: a waiting acquirer gets it, exactly one at a time, and the guarantee survives stopping and re-running the server.",
 ["schedules","histories"],
 "every interleaving of acquire/release/read/write by the server and several clients, including stop and run of the server in between",
 "No test calls the acquire/release API from more than one endpoint at a time.",
 [SRV, CLN, MU], [("binary named semaphore","MemUtils::acquireSemBlocking/releaseSem"),("server releases the lock it held since construction once, at its first run","Server::run")],
 ["return of dataSemAcquire","results of read/write on other endpoints"])

prop("C04", "Attach waits for a running server and connects to that server's tensor",
 "A client's attach returns normally only once a server is running on its name, and does return once one is; it then reports that server's row and column counts and shares that server's memory, so a value written by either side is what the other side reads. "
 "This also holds for clients that started waiting before the server existed, or while an earlier server on the same name was being stopped, closed and replaced by one of a different shape, and attaching never alters or resizes the tensor of a server.",
 ["schedules","histories","configurations"],
 "every interleaving of attach with construction, run, stop, close and replacement (other dimensions) of servers on the same name",
 "Tests start one server, then one client, once; no test replaces the server while a client waits or changes dimensions.",
 [CLN, SRV, MU], [("polling of the shared running flag","Client::_waitForServer"),("dimensions read from shared metadata under the data semaphore","Client::attach"),("metadata published before the flag is set","Server::_initMetaMem, Server::run")],
 ["return of attach","getNRows/getNCols","values read after the peer wrote"])

prop("C05", "A client of the wrong type or layout is refused without side effects",
 "Attaching a client whose element type or memory layout differs from the server's throws; the client stays unattached and its reads and writes return false. "
 "The refusal leaves no trace: the tensor's contents, the client count and everybody else's ability to attach, read, write and acquire are unaffected.",
 ["configurations","histories","schedules"],
 "all 64 pairs of server and client element type and layout, refused at any moment relative to other endpoints' operations",
 "Tests only attach matching clients.",
 [CLN, E+"include/EigenIPC/DTypes.hpp"], [("comparison with the published type and layout while holding the data semaphore","Client::_checkDType, Client::_checkMemLayout")],
 ["exception of attach","isAttached","operations of other endpoints afterwards"])

prop("C06", "The server's client count equals the number of attached clients",
 "The number of clients reported by a server equals the number of clients currently attached to that server: each successful attach of an unattached client adds one, each detach, close or destruction of an attached client removes one, and nothing else changes it, whatever the interleaving. "
 "A repeated attach, detach or close never counts twice, failed attaches do not count, a new server starts from zero, and clients of an earlier server never change a later server's count.",
 ["schedules","histories","crash_points"],
 "every interleaving and every history of attach, detach, re-attach, close, destruction and failed attach by several clients over several server instances",
 "The tests attach one client once and check the count once.",
 [CLN, SRV], [("counter updated under the data semaphore","Client::attach, Client::detach"),("counter read under the data semaphore","Server::getNClients"),("counter re-created by a new server","Server::_initMetaMem")],
 ["getNClients at quiescent points"])

prop("C07", "Operations out of lifecycle order fail cleanly",
 "Reads and writes on a server that is not running or a client that is not attached (never attached, detached, refused, stopped, closed) return false and have no effect on the tensor, on the output or on other endpoints. "
 "Any other call made too early or too late (run, stop, attach, detach, close, count, acquire, release, destruction before attach or after close, in any order and number) returns, reports an error or throws, but never crashes the process, hangs on a lock the library itself took in the same object, or disturbs another endpoint.",
 ["histories","configurations"],
 "every finite sequence of lifecycle and data calls on a server and a client object, for every element type, layout and verbosity",
 "Tests call the methods in the one intended order.",
 [SRV, CLN, MU], [("running/attached flags checked by each operation","Server::write/read, Client::write/read"),("terminated flag checked by close and destructor","Server::close, Client::close")],
 ["return values and exceptions","absence of crashes and hangs"])

prop("C08", "A forced server recovers the tensor after a crash at any point",
 "If servers and clients of a name are killed at arbitrary points, including inside construction, a copy, attach, detach, stop or close, then a server subsequently created with force_reconnection can be constructed and run, starts with a zeroed tensor of its own size and a client count of zero, and clients whose attach is called once it runs attach to it and exchange data with it. "
 "Clients left over from before the crash cannot alter the new server's tensor or client count.",
 ["crash_points","schedules"],
 "a kill of any participant at every step of every operation, repeated crashes, and any interleaving of the survivors with the recovering server",
 "No test kills a process; recovery is never exercised.",
 [SRV, MU], [("semaphore destroyed and re-created when acquisition times out under force_reconnection","MemUtils::acquireSemTimeout"),("stale data memory unlinked","MemUtils::checkMem"),("metadata re-initialised","Server::_initMetaMem")],
 ["construction/run of the new server","attach and data exchange of new clients"])

prop("C09", "Start, stop, restart and close leave a tensor in a well-defined state",
 "A new server's tensor is all zeros whatever existed under its name before; stopping and running a server again keeps its contents and clients, with the server's own reads and writes disabled in between. "
 "Closing (explicitly, repeatedly, or by destruction) ends the server, removes its shared memory and semaphores from the system (all but the one-byte running flag that waiting clients watch), makes the name immediately reusable by an unforced server of any size, and leaves clients that are still attached able to read, write, detach and close without a crash.",
 ["histories","schedules"],
 "every sequence of construct, run, stop, run, close, destroy over several generations and sizes, with clients attached, waiting or detaching meanwhile",
 "Tests run a server once and never look at what is left or reuse a name within a run; the test runner removes leftovers itself.",
 [SRV, MU], [("unlinking of stale memory at construction","MemUtils::checkMem"),("close = stop + unlink","Server::close, Server::_cleanMems")],
 ["first read of a new server","shared objects present after close","results of clients' operations"])

prop("C10", "An interrupted acquisition is reported and takes nothing",
 "If a signal interrupts a call that is blocked acquiring the tensor (manual acquisition, attach, detach, client count), the call either keeps waiting or throws; it never returns normally without having acquired. "
 "After a throw the caller does not hold the tensor, nothing was modified or miscounted, other endpoints are unaffected, and the same call can be made again and then works.",
 ["fault_sequences","schedules"],
 "an interruption at every blocking acquisition of every operation, in every interleaving with the lock's current holder",
 "Tests never deliver signals to a blocked process.",
 [MU, SRV, CLN], [("EINTR mapped to an acquisition failure which throws","MemUtils::semBlockingWait, _acquireSemBlocking")],
 ["exceptions","state observed by other endpoints"])

prop("C11", "Failing system calls are reported, never ignored",
 "If the operating system refuses any resource while a server is being constructed or run or a client is attaching (creating, sizing or mapping memory, opening a semaphore), that call throws: it never reports success, crashes, or hangs. "
 "No other endpoint is harmed and no lock stays taken: once the resource is available again a new server or client can be created on the same name and works.",
 ["fault_sequences"],
 "a failure of every individual system call issued by construction, run and attach, with every documented error, singly and persistently",
 "Tests run with ample resources; no call ever fails.",
 [MU, SRV, CLN], [("return codes of initMem/semInit checked and turned into exceptions","Server::_initDataMem/_initMetaMem/_initSems, Client::_initDataMem/_initMetaMem/_initSems")],
 ["exceptions of construct/run/attach","later operations"])

prop("C12", "Descriptors are closed exactly once and never leak",
 "Every file descriptor opened by a server or client is closed by the time the object is closed or destroyed, however often it was attached and detached, and also when construction or attach failed. "
 "No descriptor that the object does not own is ever closed, so other parts of the same process never lose theirs.",
 ["histories","fault_sequences"],
 "every history of construct, run, attach, detach, re-attach, failed attach, close and destroy, with stale memory present or not",
 "Tests never count descriptors and each process owns a single object.",
 [MU, SRV, CLN], [("cleanUpMem for each memory on close","Server::_cleanMems, Client::_cleanMems"),("checkMem closing its probe descriptor","MemUtils::checkMem")],
 ["the process's descriptor table before and after"])

prop("C13", "Tensors with different names do not affect each other",
 "Servers and clients of different (namespace, name) pairs are independent: creating, running, writing, locking, closing, crashing or recovering one tensor never changes the contents, dimensions, client count, lock or availability of another. "
 "The same holds between plain tensors, string tensors and producer/consumer pairs of different names.",
 ["histories","configurations"],
 "all pairs of names and namespaces up to small lengths and all interleaved histories of operations on both",
 "Tests use one namespace per run and hardly ever two tensors at a time.",
 [E+"src/SharedMemConfig.hpp", E+"include/EigenIPC/SharedMemConfig.hpp", E+"include/EigenIPC/MemDefs.hpp"], [("all shared object names derived from namespace and name","SharedMemConfig")],
 ["every operation's result on one tensor while the other is operated"])

prop("C14", "Block reads and writes move exactly the addressed block or nothing",
 "A write of a block at a position succeeds exactly when position and block lie inside the tensor, and then changes exactly the addressed elements to the block's values; otherwise it returns false and changes nothing. A read likewise succeeds exactly when the block lies inside, fills the whole output with the addressed elements and nothing else, and otherwise returns false leaving the output alone. "
 "This holds on servers and clients, for every element type, memory layout, tensor and block shape, and whether the caller's data is a matrix, a block of a larger matrix or a strided view, and views created from a matrix address exactly the requested block or throw when it does not fit.",
 ["inputs","configurations"],
 "all tensor and block shapes and positions (including negative, zero-size and overhanging) up to small bounds, all 8 type/layout combinations, both overloads, contiguous and strided caller data",
 "Tests compare a handful of shapes, all in bounds except one.",
 [MU, E+"include/EigenIPC/Helpers.hpp", SRV, CLN], [("bounds test","helpers::canFitTensor"),("block assignment between Eigen maps","MemUtils::read/write"),("start pointer and strides per layout","helpers::createViewFrom")],
 ["results and the full tensor contents seen by every endpoint"])

prop("C15", "Every consumer sees every trigger exactly once or an error",
 "Each trigger issued by a producer is delivered to every consumer that was running at the time exactly once: a consumer's wait returns true once per trigger, never without one and never twice for the same one, regardless of whether the consumer was already waiting. "
 "If more than one trigger is outstanding for a consumer its wait throws instead of silently skipping triggers.",
 ["schedules","histories"],
 "every interleaving of triggers with the waits, timeouts and starts of several consumers",
 "Tests run one trigger pattern in lock-step with acknowledgements, under OS scheduling.",
 [E+"src/Producer.cpp", E+"src/Consumer.cpp", E+"src/CondVar.cpp"], [("shared trigger counter incremented and compared under the trigger mutex","Producer::trigger, Consumer::wait"),("notify_all on the trigger condition","Producer::trigger")],
 ["results and exceptions of wait"])

prop("C16", "Acknowledgements are counted exactly and never lost",
 "Acknowledgements given concurrently by any number of consumers are all counted. A producer's wait for n acknowledgements returns true only when at least n acknowledgements were given since its last successful wait, and returns true (rather than hanging or timing out) whenever they have been given.",
 ["schedules","histories"],
 "every interleaving of acknowledgements of several consumers with the producer's waits, timeouts and triggers, with fewer, exactly as many or more consumers than awaited",
 "Tests always have exactly the awaited consumers acknowledging once per round.",
 [E+"src/Producer.cpp", E+"src/Consumer.cpp"], [("ack counter read-modify-write under the ack mutex","Consumer::_acknowledge"),("difference to the last accepted count","Producer::_check_ack_counter")],
 ["results of wait_ack_from and ack"])

prop("C17", "Waits end on time, wake on events and keep their promises",
 "A wait (for a trigger or for acknowledgements) with a positive timeout returns false only after the timeout has elapsed without the event, and does not stay blocked longer than the timeout allows once nothing more happens; a wait without timeout stays blocked until the event and then returns. A timed-out wait consumes nothing. "
 "A combined wait-and-acknowledge runs its callback and acknowledges exactly once if the trigger came, neither if it did not, and returns true only if trigger, callback and acknowledgement all succeeded.",
 ["schedules","histories"],
 "every interleaving and every relative timing of triggers, acknowledgements, timeouts and spurious wake-ups",
 "Tests use one generous timeout that never expires.",
 [E+"src/Producer.cpp", E+"src/Consumer.cpp", E+"src/CondVar.cpp"], [("timed wait on an absolute deadline","ConditionVariable::timedwait"),("predicate re-checked in a loop under the mutex","Consumer::wait, Producer::wait_ack_from"),("wait then callback then ack","Consumer::wait_and_ack")],
 ["results, call durations and acknowledgement counts"])

prop("C18", "Producer and consumer start, stop, restart and recover consistently",
 "A consumer's run returns only after a producer is running, whichever was started first; operations before run, or after close, throw instead of blocking or crashing; a second unforced producer on the same name fails without harming the first. "
 "After closing, a new producer can start with counters at zero; after a crash of any participant at any point a producer started with force_reconnection works with newly started consumers.",
 ["schedules","crash_points","histories"],
 "every order of construction, run, close and destruction of producers and consumers, every crash point, with and without force_reconnection",
 "Tests start one forced producer and one consumer, once, in one order.",
 [E+"src/Producer.cpp", E+"src/Consumer.cpp", E+"src/CondVar.cpp"], [("condition variables created before the counter servers run","Producer::run"),("consumer attaches before opening them","Consumer::run"),("forced removal of stale mutex and condition","ConditionVariable::ConditionVariable")],
 ["return/exception of run, close and later operations"])

prop("C19", "The shared condition variable excludes, wakes and times out correctly",
 "At most one holder of a shared condition variable's lock exists across processes; a wait releases the lock while blocked and holds it again when it returns; a notification wakes one (or, if asked, every) process that was waiting; predicate waits return only when the predicate holds or, if timed, report false after the timeout. "
 "Creating one that already exists without forcing, or opening one that does not exist, throws; closing the creating side removes it from the system.",
 ["schedules","histories"],
 "every interleaving of lock, wait, timed wait, predicate wait and notify by several processes, and all creation/opening orders",
 "There are no tests of this class on its own.",
 [E+"src/CondVar.cpp", E+"include/EigenIPC/CondVar.hpp"], [("named mutex and named condition of boost::interprocess","ConditionVariable")],
 ["order of critical sections, results of the waits, exceptions"])

prop("C20", "Strings are read back exactly as written",
 "A string of at most 1024 bytes without NUL bytes, and a list of such strings, written to a string tensor at a valid position is read back byte for byte by every endpoint, until that position is written again; other positions are unaffected, and longer earlier contents leave no residue. "
 "Writes and reads whose position or length does not fit (negative, beyond the end, or a string that is too long) return false and change nothing.",
 ["inputs","histories"],
 "all string lengths around every chunk boundary up to and beyond the maximum, all byte values, all positions and list lengths including invalid ones, and sequences of overwrites",
 "Tests write a few short strings once.",
 [E+"src/StringTensor.cpp", E+"include/EigenIPC/StringTensor.hpp"], [("four bytes per element encoding down a column","StringTensor::_encode_str/_decode_str"),("fit check","StringTensor::_fits")],
 ["results of read and write on all endpoints"])

prop("C21", "String tensors are shared consistently between endpoints",
 "A string tensor client learns its length from the server and sees what the server and other clients wrote; with safe access a list write is atomic, so a list read returns strings of one single write to those positions, and single-string accesses never see or leave a mixture of two strings. "
 "Operations before run return false, access conflicts return false with no effect, obtaining the underlying tensor or closing a client never disturbs the other endpoints, and close and restart behave as for plain tensors.",
 ["schedules","histories"],
 "every interleaving of list and single-string reads and writes by several endpoints with run, close and restart",
 "Tests use one writer and one reader without concurrency.",
 [E+"src/StringTensor.cpp", SRV, CLN], [("block copy of the affected columns under the data semaphore","StringTensor::read/write"),("length from the attached client","StringTensor<StrClient>::run")],
 ["results of read/write, values"])

PB = E+"bindings/PyEigenIPC/"
prop("C22", "Python arrays are transferred exactly or refused",
 "From Python, writing an array to or reading it from a server or client of any element type and layout either transfers exactly the elements of the addressed block, for contiguous, sliced and strided arrays alike, or refuses by returning false or raising; arrays of another element type, of a number of dimensions other than two, with memory the library cannot address, or read-only as a read target are refused. "
 "A refused call changes neither the shared tensor nor the array, and errors of the underlying library arrive as Python exceptions.",
 ["inputs","configurations"],
 "all element types, layouts, array orders, slices, strides, dimensions and positions up to small bounds, on servers and clients",
 "Tests use whole contiguous arrays of the matching type.",
 [PB+"src/PyServer.cpp", PB+"src/PyClient.cpp", PB+"src/PyEigenIPCUtils.hpp", PB+"PyEigenIPC.cpp"], [("dtype comparison in the wrapper","bind_ServerWrapper, bind_ClientWrapper"),("buffer checks and stride conversion","PyEigenIPCUtils CheckInputBuffer/ToEigenStrides")],
 ["results, exceptions, shared contents and array contents"])

prop("C23", "The Python string, producer and consumer classes behave like the C++ ones",
 "The Python string tensor, producer and consumer classes give the same results as the C++ ones for every operation they offer: strings and lists written are read back exactly on both sides, failed operations report failure and leave the caller's list contents unchanged, raw buffers and the underlying tensor can be inspected without disturbing any endpoint, and triggers, acknowledgements, timeouts and errors pass through unchanged.",
 ["inputs","histories"],
 "all sequences of the Python-level operations up to a small length, over servers, clients, producers and consumers",
 "Tests cover single list writes and reads of the string classes and one trigger pattern.",
 [PB+"src/PyStringTensor.cpp", PB+"src/PyProducer.cpp", PB+"src/PyConsumer.cpp"], [("pybind11 bindings","PyStringTensor.cpp, PyProducer.cpp, PyConsumer.cpp")],
 ["results and exceptions in Python"])

prop("C24", "The Python shared-data view mirrors the shared tensor faithfully",
 "After running, a view's local mirror has the shared tensor's shape and type; writing a scalar or a block through the view stores exactly it in the shared tensor and the mirror, reading a scalar or a block returns exactly what is shared, and synchronising in either direction copies exactly the requested block and nothing else. "
 "A fill value is visible to everyone once the server's run returns; data that is not two-dimensional or does not fit is refused without changing the shared tensor; failed accesses report failure, and retrying variants return only once the access has succeeded or the view is not running any more, in which case they report failure.",
 ["inputs","histories"],
 "all sequences of view operations by a server and clients up to a small length over all element types, positions and block shapes",
 "There are no tests of this class.",
 [PB+"wrappers/shared_data_view.py"], [("mirror array sliced and passed to the binding","SharedTWrapper.write/read/synch")],
 ["results, mirror contents, contents seen by other endpoints"])

prop("C25", "Named data blocks are shared consistently by the tensor dictionary",
 "A dictionary client, once running, knows exactly the server's block names, block dimensions and node count, however its start is interleaved with the server's; writing a named block by either side changes exactly that block, and after synchronising, getting a name returns exactly the latest value written to that block. "
 "Returned blocks are copies, blocks never written hold the initial fill, and unknown names or data that does not fit are refused without changing anything.",
 ["inputs","schedules","histories"],
 "all dictionaries of small size, all sequences of block writes, synchronisations and gets by both sides, and all start orders",
 "There are no tests of this class.",
 [PB+"wrappers/shared_tensor_dict.py", PB+"wrappers/shared_data_view.py"], [("row offset = sum of the preceding dimensions","SharedTensorDict.write/get"),("names and dimensions shared by a string tensor and an integer tensor","SharedTensorDict.run")],
 ["names, dimensions and values on both sides"])

RB = PB+"extensions/ros_bridge/"
prop("C26", "Forwarding a tensor to topics announces it truly and publishes only what it was",
 "A forwarder (ToRos) that has been run has announced the number of rows, of columns and the element type of its tensor, or of the encoding of its string tensor, on the topics of its name. Each successful update publishes, on its data topic, contents the tensor had at some moment during the update, whole and in row-major order of the elements, for every element type and layout; nothing else is published, and forwarding never changes the tensor. "
 "Running works whether or not the client is attached already, waits for the server, and may be repeated; an update after closing, or before running, does not report success, publishes nothing and returns.",
 ["inputs","schedules","histories"],
 "all element types, layouts, shapes, queue sizes and both ROS versions, and every interleaving of updates with writes, run and close by the server",
 "The tests of the bridge need a running ROS, are not run here, and look at one tensor that does not change while it is forwarded.",
 [RB+"to_ros.py", RB+"abstractions.py", RB+"ros1_utils.py", RB+"ros2_utils.py", RB+"defs.py"], [("read into the array that the message is made from","ToRos._synch_from_shared_mem, RosPublisher.pub_data"),("metadata topics","RosPublisher._write_metadata, NamingConventions")],
 ["latched messages of each topic, results, contents of the tensor"])

prop("C27", "A tensor received from topics is the last message delivered",
 "A receiver (FromRos) can be run exactly when number of rows, number of columns and element type have all been announced to it, in any order and whether before or after it subscribed; it then provides a server under its name of exactly that shape and type, and each successful update leaves the shared tensor with the contents of the last data message delivered, so that a tensor forwarded and received arrives unchanged. "
 "Contradicting later announcements and data of the wrong size or type have no effect and do not keep later messages from arriving; the shared tensor changes only by updates; closing, at any time, ends all its subscriptions and its server, after which updates do not report success and return.",
 ["inputs","schedules","histories"],
 "all orders of announcements, data and subscription, sensible or not, element types, shapes, queue sizes and both ROS versions, and sequences of run, update and close",
 "The tests of the bridge need a running ROS, are not run here, and follow one well-behaved order.",
 [RB+"from_ros.py", RB+"abstractions.py", RB+"ros1_utils.py", RB+"ros2_utils.py", RB+"defs.py"], [("metadata callbacks","RosSubscriber._n_rows_callback, _n_cols_callback, _dtype_callback"),("data callback writes the array that update shares","RosSubscriber._data_callback, FromRos._write_to_shared")],
 ["results, number of live subscriptions, contents seen by clients of the new server"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
