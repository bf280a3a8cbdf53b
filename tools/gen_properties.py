import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
SEM=["src/Semaphore.cpp","src/Semaphore.hpp"]
RBS=["src/RingBufferSimple.hpp"]
RBG=["src/RingBufferGuarded.hpp","src/RingBufferSimple.hpp","src/Semaphore.cpp"]
MP=["src/MemoryPoolBase.cpp","src/MemoryPoolBase.hpp"]
OP=["src/ObjectPool.hpp","src/ObjectPoolDeleter.hpp","src/MemoryPoolDeleterBase.cpp"]+MP
BP=["src/BlockPool.hpp","src/BlockPoolDeleter.hpp","src/MemoryPoolDeleterBase.cpp"]+MP
MQ=["src/MessageQueue.hpp","src/MessageQueue.cpp","src/MessageQueueBase.hpp","src/MessageQueueBase.cpp"]
MX=["src/Mutex.cpp","src/Mutex.hpp"]
p("C01","Semaphore accounting is exact under every interleaving",
 "At every quiescent point a semaphore's available count equals its initial count plus completed gives minus completed takes, and it never exceeds the maximum it was constructed with. A take completes only by consuming a unit that was available, so concurrent takes and gives neither lose nor invent units.",
 ["schedules","inputs","histories"],"all interleavings of concurrent take/give callers, all initial and maximum counts",
 "testSemaphore runs a few fixed thread counts under whatever schedules the OS picks; it cannot cover all interleavings nor all counts.",
 SEM,[("_take/_give under the mutex","src/Semaphore.cpp: Semaphore::Imple::_take, _giveWait, _give")],
 [("available count","units that may be taken","Semaphore::Imple::availableCount")],["Semaphore::take","Semaphore::give","Semaphore::getAvailableCount"])
p("C02","Semaphore waiters are never stranded (no lost wakeups)",
 "When no thread can make further progress, no taker is blocked while units are available and no giver is blocked while the available count is below the maximum, unless ... never: this holds also when user functors passed to take or give throw, and with spurious condition-variable wakeups. A take on a semaphore with an available unit, or a give on one below its maximum, never waits for another semaphore operation.".replace("unless ... never: this","and this"),
 ["schedules","inputs","fault_sequences"],"all interleavings of takers and givers, all choices of which waiter a signal wakes, throwing functors, spurious wakeups",
 "A lost wakeup needs a particular interleaving of waiters, signals and failing functors; the tests poll states after fixed sleeps and never combine waiters with throwing functors.",
 SEM,[("signal on give / on take","src/Semaphore.cpp: _give, _takeNotify"),("wait loops","src/Semaphore.cpp: _take, _giveWait")],None,["Semaphore::take","Semaphore::give"])
p("C03","Semaphore abort releases every waiter and is permanent",
 "After abort, every thread blocked in take or give, however many there are and whatever they wait for, returns by throwing SemaphoreAborted, and every take or give that starts later throws SemaphoreAborted without invoking its functor and without changing the available count. Abort may be called repeatedly and concurrently with any operation, and destroying a semaphore aborts it.",
 ["schedules","histories"],"all interleavings of abort with blocked and running takers and givers",
 "The tests abort at one point of a settled schedule; an abort landing inside another operation, or with both kinds of waiters present, is not sampled.",
 SEM,[("abort flag and broadcasts","src/Semaphore.cpp: Imple::abort, ~Imple")],None,["Semaphore::abort"])
p("C04","Semaphore functors run once, exclusively, and roll back on throw",
 "A functor passed to take or give is invoked exactly once per completed operation, while no other functor of the same semaphore is running, and only after the operation has acquired its unit (take) or its room (give). If the functor throws, or is an empty function object, the exception reaches the caller, the available count is as if the call had not been made, and the semaphore stays usable.",
 ["schedules","inputs","fault_sequences"],"all interleavings of functor-carrying takes and gives, all choices of which functor calls throw",
 "The existing tests call functors that do not throw in few schedules; exclusion and rollback need all interleavings and all failure choices.",
 SEM,[("take(operation)/give(operation)","src/Semaphore.cpp: Imple::take, Imple::give, AvailableCountManager")],None,["Semaphore::take(fn)","Semaphore::give(fn)"])
p("C05","Semaphore construction clamps correctly for all counts",
 "For every pair of size_t arguments, the initial available count is min(initial, 2^32-1); the maximum is 2^32-1 when zero or anything above that is requested, and is otherwise the requested value but never below the initial count. A give at a count of 2^32-1 throws SemaphoreOverflow and leaves the count unchanged, and the count never wraps.",
 ["inputs"],"all 2^128 constructor argument pairs",
 "Tests construct a handful of small counts; the 32-bit clamping boundaries are unreachable by counting up.",
 SEM,[("clamping","src/Semaphore.cpp: Imple::Imple, doctorMaxAvailableCount"),("overflow test","src/Semaphore.cpp: _giveWait")],None,["Semaphore::Semaphore","Semaphore::getAvailableCount"])
p("C06","Simple ring buffer is an exact bounded FIFO, forever",
 "A RingBufferSimple returns exactly the values put, in order, unchanged (including for pointers to const and every scalar width), holds exactly getSize() elements, and throws RingBufferOverflow on a put when full and RingBufferUnderflow on a get when empty, leaving contents and later behaviour unaffected. This holds for every sequence of operations however long, including past any internal counter wrap.",
 ["histories","inputs"],"all put/get histories (any number of prior operations), all values, all buffer sizes",
 "Tests perform a short fixed sequence per type; histories of more than 2^32 operations and failing operations followed by more operations are not reached.",
 RBS,[("counter arithmetic","src/RingBufferSimple.hpp: RingBufferSimpleImple::get, put")],[("get/put counters","positions of next get/put modulo 2^32","RingBufferSimpleImple")],["RingBufferSimple::get","RingBufferSimple::put"])
p("C07","Ring buffer sizing is right for every requested size",
 "For every requested size, the ring's size is the smallest power of two that is at least the request, clamped to between 2 and 2^20, with getMask() == getSize() - 1 and 2^getNumBits() == getSize(). The storage really holds that many elements: the ring can be filled to getSize() without touching memory outside it.",
 ["inputs","configurations"],"all 2^64 requested sizes",
 "The tests check a few sizes; boundary cases between powers of two and of the clamps are an input quantifier.",
 RBS,[("numBitsForNE/maskForNB","src/RingBufferSimple.hpp: RingBufferSimpleImple")],None,["getSize","getMask","getNumBits"])
p("C08","Guarded ring buffer delivers exactly once, in FIFO order",
 "With any number of concurrent producers and consumers, every element whose put completed is returned by exactly one get, in the order the puts took effect (so each producer's elements reach a single consumer in the order put), and no get returns a value that was not put. A completed put or get is never undone or duplicated by other threads' operations.",
 ["schedules","inputs","histories"],"all interleavings of producers and consumers, all values, ring capacities including non-powers of two",
 "testRingBufferGuarded sums values over OS-chosen schedules; it samples interleavings and does not check order.",
 RBG,[("semaphore-guarded ring access","src/RingBufferGuarded.hpp: get, put")],None,["RingBufferGuarded::get","RingBufferGuarded::put"])
p("C09","Guarded ring buffer blocks exactly when empty or full",
 "A get waits only while the buffer is empty and a put waits only while it holds the requested number of elements; when either condition ends, a waiting thread proceeds, so no thread stays blocked when it could complete. get and put never report RingBufferUnderflow or RingBufferOverflow, for any requested size from 1 to 2^20.",
 ["schedules","inputs","configurations"],"all interleavings, all requested sizes 1..2^20, primed or not",
 "Whether some schedule strands a waiter or lets a ring over- or underflow cannot be settled by sampling schedules.",
 RBG,[("semaphore initial and max counts","src/RingBufferGuarded.hpp: RingBufferGuardedBase constructor"),("wake-ups","src/Semaphore.cpp")],None,["RingBufferGuarded::get","RingBufferGuarded::put"])
p("C10","Guarded ring buffer life cycle is enforced",
 "A ring constructed for priming rejects get and put with RingBufferStateError until prime has stored exactly the requested number of elements, passing indices 0,1,2,... once each; priming again or priming a ring not constructed for it is rejected with RingBufferStateError. flush is rejected unless aborted, and after an abort it hands over exactly the elements not yet removed, each once, in FIFO order, even when the abort came before or during priming; after abort get throws and put stores nothing.",
 ["histories","inputs","schedules"],"all operation orders on primed and unprimed rings, abort at any point, functors that throw",
 "Tests walk one legal order; illegal orders and abort during priming are not sampled.",
 RBG,[("state machine","src/RingBufferGuarded.hpp: prime, flush, abort, get, put")],[("state","NeedsPriming/Ready/Terminal","RingBufferGuardedBase::state")],["prime","flush","abort"])
p("C11","Guarded ring buffer abort releases all blocked threads",
 "After abort, every thread blocked in get or put returns promptly, no operation blocks any more, get always throws, and elements put but not fetched stay available to flush. An operation racing with abort either takes full effect or none.",
 ["schedules"],"all interleavings of abort with concurrent and blocked gets and puts",
 "The racing window between the state change and the wakeups needs specific interleavings.",
 RBG,[("abort","src/RingBufferGuarded.hpp: abort"),("semaphore abort","src/Semaphore.cpp")],None,["RingBufferGuarded::abort"])
p("C12","Pool blocks never overlap and stay inside the pool's memory",
 "For every element size and element count, blocks handed out at the same time are disjoint, at least the padded element size long, aligned for pointers, and entirely inside memory owned by the pool; writing every byte of one block never changes another. Each block is delivered zero-filled, and preparing one block modifies no other block.",
 ["inputs","configurations"],"all element sizes and pool sizes, any set of outstanding blocks",
 "Tests use a few element types whose size is a multiple of eight; other sizes, and neighbouring blocks' contents, are not looked at.",
 MP,[("arena layout and padding","src/MemoryPoolBase.cpp: Imple::Imple, getPaddedTypeAllocSize, getRawBlock")],None,["ObjectPool::createObj","BlockPool::getBlock"])
p("C13","A pool block has one owner; exhaustion is exact and recoverable",
 "Under any interleaving of allocations and returns from any threads, a block is never held by two owners, and exactly getSize() blocks can be outstanding: allocation fails with a ring-buffer exception only when all blocks are out and then changes nothing. Every returned block becomes available again and none is lost.",
 ["schedules","histories"],"all interleavings of allocating and releasing threads, pools from 2 elements",
 "Double ownership needs a specific interleaving; existing tests exercise pools from one thread or in OS-chosen schedules.",
 OP+BP[:2],[("mutex-guarded ring of free blocks","src/MemoryPoolBase.cpp: getRawBlock, returnRawBlock")],None,["createObj","getBlock","deleters"])
p("C14","Pool statistics are exact",
 "At quiescence a pool's running count equals its size minus the blocks outstanding, and its low watermark is the smallest number of free blocks there has been. At every moment, from any thread, the reported counts satisfy 0 <= low watermark <= running count <= size, the low watermark never rises, and failed allocations do not change it.",
 ["schedules","histories"],"all interleavings of allocating, releasing and observing threads",
 "Tests read statistics single-threaded at settled points.",
 MP,[("packed 64-bit running state with CAS","src/MemoryPoolBase.cpp: getRawBlock, returnRawBlock, getRunningStateStatistics")],[("running state","count and low watermark in one 64-bit atomic","MemoryPoolBase::Imple::runningState")],["getRunningStateStatistics"])
p("C15","Pooled objects are built, destroyed and returned exactly once",
 "createObj builds the requested derived object from exactly the arguments given, and when the owning smart pointer lets go (destruction, reset or move assignment) the object's most-derived destructor runs exactly once, before its block becomes available again, wherever the base class lies inside the derived object. If the constructor throws, the exception propagates, no destructor runs and the block is back in the pool; a type larger than the pool's element size is rejected with ObjectPoolElementSizeError before any block is taken, and one that fits is accepted.",
 ["inputs","fault_sequences","histories"],"all object sizes around the limit, all constructor outcomes, all base-class layouts, all pointer operation histories",
 "Tests use single inheritance and constructors that mostly succeed.",
 OP,[("createObj and RawMemoryManager","src/ObjectPool.hpp"),("deleter","src/ObjectPoolDeleter.hpp")],None,["ObjectPool::createObj","ObjectPoolPtrType"])
p("C16","Block pool arrays are complete, zeroed and fully destroyed",
 "A block from a BlockPool holds exactly the requested number of elements: every element of a class type is constructed once in order and destroyed once when the block is released, scalar elements read as zero, and the deleter reports that number of elements. If an element's constructor throws, the elements already constructed are destroyed, the block returns to the pool and the exception propagates.",
 ["inputs","fault_sequences"],"all element counts and element sizes, failure of any element's constructor",
 "Tests use few counts and types and fail no constructor at every index.",
 BP,[("getBlock","src/BlockPool.hpp"),("array deleter","src/BlockPoolDeleter.hpp")],None,["BlockPool::getBlock","BlockPoolPtrType"])
p("C17","Every queued message is dispatched once, in order, then destroyed",
 "Each message whose put or emplace completed is dispatched exactly once, by one getAndDispatch call, in the order the messages were queued (so each producer's messages are dispatched in the order sent), with the contents the producer gave it, and is destroyed exactly once after its dispatch. Nothing is dispatched that was not queued.",
 ["schedules","histories","inputs"],"all interleavings of producers and consumers, all queue sizes and message values",
 "testMessageQueue runs a few producers under OS schedules; duplication, loss or reordering may need a rare interleaving.",
 MQ,[("raw and cooked rings","src/MessageQueueBase.cpp"),("put/emplace/getAndDispatch","src/MessageQueue.hpp, src/MessageQueue.cpp")],None,["MessageQueue::put","MessageQueue::emplace","MessageQueue::getAndDispatch"])
p("C18","Queue capacity is exact and slots are conserved",
 "Exactly the requested number of messages can be queued before put or emplace blocks, a blocked producer proceeds as soon as a slot is freed, and a blocked consumer as soon as a message is queued. A slot is freed whenever its message's handling ends, also when the message constructor, wakeup functor, or dispatch throws (the exception reaches the caller), so the capacity never shrinks or grows.",
 ["schedules","fault_sequences","configurations"],"all interleavings, all choices of throwing constructor/wakeup/dispatch, queue sizes",
 "Slot leaks on exception paths and stranded producers need fault and schedule combinations that tests do not cover.",
 MQ,[("RawMemoryManager/CookedMemoryManager","src/MessageQueueBase.hpp"),("rawWaitAndGet/rawPutAndNotify","src/MessageQueueBase.cpp")],None,["put","emplace","getAndDispatch"])
p("C19","Queue abort and destruction are clean",
 "After abort, threads blocked in put, emplace or getAndDispatch are released by an exception, later calls do not block, and nothing ever terminates the process whatever operations abort races with. Every message constructed in the queue is destroyed exactly once - after its dispatch, when dropped because of the abort, or when the queue is destroyed - and destruction releases all the queue's memory.",
 ["schedules","histories"],"all interleavings of abort with producers and consumers at any point of their operations",
 "The dangerous windows (abort between construction and queueing, or while a consumer returns a slot) are too narrow to sample.",
 MQ,[("abort","src/MessageQueueBase.cpp: Imple::abort, ~Imple"),("slot managers","src/MessageQueueBase.hpp")],None,["MessageQueue::abort","~MessageQueue"])
p("C20","The dispatch lock excludes dispatching and is held exactly as owned",
 "While dispatch locking is enabled, no message is being dispatched while another thread holds an AutoDispatchLock, and two dispatches never overlap; without it getAutoDispatchLock throws MessageQueueDispatchLockingDisabled. The lock is held exactly while its current owner object is in the locked state: construction locks, unlock/lock/destruction/moves (also assignment over an object that holds a lock) keep one owner and never leak the lock or release it twice.",
 ["schedules","histories"],"all interleavings of dispatchers and lock holders, all sequences of lock/unlock/move/assign",
 "Tests do one lock/unlock pattern; exclusion is over all schedules, and move histories are not sampled.",
 MQ+MX,[("dispatchMessage","src/MessageQueueBase.cpp"),("AutoDispatchLock","src/MessageQueueBase.hpp, src/MessageQueueBase.cpp")],None,["getAutoDispatchLock","getAndDispatch"])
p("C21","Queue statistics are exact",
 "At quiescence a message queue's running count is the number of messages queued and not yet finished, and its high watermark is the greatest number of slots that were in use at once. At every moment, from any thread, 0 <= running count <= high watermark <= size, the size is the requested one and the high watermark never falls.",
 ["schedules","histories"],"all interleavings of producers, consumers and observers",
 "Tests read statistics at settled points in single-producer schedules.",
 MQ,[("packed 64-bit running state with CAS","src/MessageQueueBase.cpp: rawWaitAndGet, rawPutAndNotify")],[("running state","count and high watermark in one 64-bit atomic","MessageQueueBase::Imple::runningState")],["MessageQueue::getRunningStateStatistics"])
p("C22","Purge discards exactly the queued messages",
 "Called while no other thread uses the queue, purge destroys each queued message once without dispatching it, frees all their slots, does not block, and leaves the queue empty and fully usable.",
 ["histories","inputs"],"all fill levels, queue sizes and prior put/dispatch histories",
 "Tests purge one fill level.",
 MQ,[("purge","src/MessageQueue.cpp")],None,["MessageQueue::purge"])
p("C23","Message storage is isolated and sized correctly",
 "For every requested queue size and maximum message size, messages queued at the same time occupy disjoint, pointer-aligned memory inside the queue's own storage; constructing, dispatching or destroying one never changes another or memory outside. A message type larger than the (pointer-size padded) maximum is rejected with MessageQueueElementSizeError before anything is consumed and one that fits is accepted, wherever MessageBase lies inside the message type.",
 ["inputs","configurations"],"all maximum message sizes and queue sizes, all message types by size and base-class layout",
 "Tests use a few message sizes; padding boundaries and secondary bases are input quantifiers.",
 MQ,[("arena layout and padding","src/MessageQueueBase.cpp: Imple::Imple, getPaddedTypeAllocSize, rawWaitAndGet"),("size checks","src/MessageQueue.hpp")],None,["put","emplace"])
p("C24","Mutex is an exclusive, priority-inheriting lock that reports errors",
 "Mutex gives mutual exclusion between threads, try_lock succeeds exactly when the mutex is free and never blocks, and on POSIX threads the underlying lock uses the priority-inheritance protocol and is the one native_handle exposes. When the platform reports any error code from locking or unlocking, the call throws std::system_error carrying that code (try_lock reports 'busy' as false), and construction and destruction neither leak nor double-free.",
 ["schedules","inputs","fault_sequences"],"all interleavings of lock/try_lock/unlock, all error codes returned by the platform",
 "No test exercises Mutex directly; platform error codes cannot be provoked by ordinary tests.",
 MX,[("pthread wrappers","src/Mutex.cpp")],None,["Mutex::lock","Mutex::try_lock","Mutex::unlock"])
p("C25","No heap allocation after construction",
 "Once constructed, ring buffers, object pools, block pools and message queues perform no heap allocation in their successful steady-state operations: get, put, createObj and its release, getBlock and its release, put, emplace, getAndDispatch and statistics. All their memory is released on destruction.",
 ["histories","inputs"],"all steady-state operation histories, sizes and fill levels",
 "Tests do not observe the allocator at all.",
 ["src/RingBufferSimple.hpp","src/RingBufferGuarded.hpp","src/MemoryPoolBase.cpp","src/ObjectPool.hpp","src/BlockPool.hpp","src/MessageQueue.hpp","src/MessageQueueBase.cpp"],
 [("preallocated arenas and rings; std::ref'd functors","src/RingBufferGuarded.hpp: get, put; src/MemoryPoolBase.cpp; src/MessageQueueBase.cpp")],None,["operator new/delete"])
p("C26","The components are free of data races",
 "Concurrent use of any public operation of Semaphore, RingBufferGuarded, ObjectPool, BlockPool and MessageQueue (and their statistics and count queries) involves no data race: two threads never access the same non-atomic memory location unsynchronised with at least one writing. This is judged over all sequentially consistent interleavings.",
 ["schedules"],"all interleavings of concurrent public operations",
 "A race may be benign in every sampled run; the tests are not run under a race detector, and such a detector sees only the schedules that ran.",
 ["src/Semaphore.cpp","src/RingBufferGuarded.hpp","src/MemoryPoolBase.cpp","src/MessageQueueBase.cpp"],
 [("mutexes and atomics","src/Semaphore.cpp, src/MemoryPoolBase.cpp, src/MessageQueueBase.cpp")],None,["all public operations"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); 
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
