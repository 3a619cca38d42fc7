// pkg/set, pkg/queue, pkg/syncqueue, pkg/util
package pkg/util

func MapKeys(in_)(r) {
	ensures len(r) == card(in_)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] in in_
	ensures forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
	ensures forall k K :: {k in in_} k in in_ ==> exists i int :: 0 <= i && i < len(r) && r[i] == k
}
func CopyMap(m)(r) { ensures r == m }
func CopyList(ls)(r) { ensures r == ls }
func Reverse(ls)(r) {
	ensures len(r) == len(ls)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == ls[len(ls) - 1 - i]
}

package pkg/queue
owns pkg/queue.Queue.q

func NewQueue(keys)(r) [C20] { consumes keys  ensures deref(r).q == keys }
func Queue.Push(q, keys) [C20] { modifies q  ensures q.q == old(q.q) + keys }
func Queue.Pop(q)(key, ok) [C20] {
	modifies q
	ensures ok == (len(old(q.q)) > 0)
	ensures ok ==> key == old(q.q)[0] && q.q == old(q.q)[1:]
	ensures !ok ==> key == zeroof(key) && q.q == old(q.q)
}
func Queue.Peek(q)(key, ok) [C20] {
	ensures ok == (len(q.q) > 0)
	ensures key == ite(ok, q.q[0], zeroof(key))
}
func Queue.Size(q)(n) [C20] { ensures n == len(q.q) }

package pkg/set
owns pkg/set.Set.s

func NewSet()(r) { ensures deref(r).s == emptymap(deref(r).s) }
func NewSetFromList(list)(r) { ensures deref(r).s == addall(emptymap(deref(r).s), list) }
func Set.Add(s, keys) { modifies s  ensures s.s == addall(old(s.s), keys) }
func Set.Remove(s, key)(r) {
	modifies s
	ensures r == (key in old(s.s))
	ensures s.s == mapdel(old(s.s), key)
}
func Set.Includes(s, key)(r) { ensures r == (key in s.s) }
func Set.IncludesAny(s, keys)(r) { ensures r == (exists i int :: {keys[i]} 0 <= i && i < len(keys) && keys[i] in s.s) }
func Set.Copy(s)(r) { ensures deref(r).s == s.s }
func Set.Size(s)(n) { ensures n == card(s.s) }
func Set.ToList(s)(r) {
	ensures len(r) == card(s.s)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] in s.s
	ensures forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
	ensures forall k K :: {k in s.s} k in s.s ==> exists i int :: 0 <= i && i < len(r) && r[i] == k
}
func Set.HasIntersection(s, other)(r) { ensures r == (exists k K :: {k in s.s} {k in other.s} k in s.s && k in other.s) }
func Set.Filter(s, filter) {
	modifies s
	ensures forall k K :: {k in s.s} {k in old(s.s)} k in s.s <==> (k in old(s.s) && apply(filter, k))
}

// Mutexes are tracked as 0 (not touched in this call), 1 (held), 2 (released),
// 3 (held for reading): every method is one critical section.
package pkg/syncqueue
opaque sync.Mutex = int
opaque sync.RWMutex = int
ref pkg/syncqueue.SyncQueue
owns pkg/syncqueue.SyncQueue.q
guarded pkg/syncqueue.SyncQueue.q by mu
guarded pkg/syncqueue.SyncQueue.closed by mu

extern sync.Mutex.Lock(m) {
	requires "a lock is taken once per operation, so that the operation is one atomic step" deref(m) == 0
	modifies m
	ensures deref(m) == 1
}
extern sync.Mutex.Unlock(m) {
	requires "only a held lock is released" deref(m) == 1
	modifies m
	ensures deref(m) == 2
}
extern sync.RWMutex.Lock(m) {
	requires "a lock is taken once per operation, so that the operation is one atomic step" deref(m) == 0
	modifies m
	ensures deref(m) == 1
}
extern sync.RWMutex.Unlock(m) {
	requires "only a held lock is released" deref(m) == 1
	modifies m
	ensures deref(m) == 2
}
extern sync.RWMutex.RLock(m) {
	requires "a lock is taken once per operation, so that the operation is one atomic step" deref(m) == 0
	modifies m
	ensures deref(m) == 3
}
extern sync.RWMutex.RUnlock(m) {
	requires "only a held lock is released" deref(m) == 3
	modifies m
	ensures deref(m) == 2
}


func NewSyncQueue(keys)(r) [C20] {
	consumes keys
	allocates
	ensures fresh(r)
	ensures !r.closed && !isnil(r.q) && deref(r.q).q == keys
	ensures r.mu == 0
}
func SyncQueue.Push(q, keys) [C20] {
	free requires q.mu == 0
	requires isnil(q.q) == q.closed
	modifies q
	shows "lock released" q.mu == 2
	free ensures q.mu == 0
	ensures q.closed == old(q.closed) && isnil(q.q) == q.closed
	ensures !q.closed ==> deref(q.q).q == deref(old(q.q)).q + keys
}
func SyncQueue.Pop(q)(key, ok) [C20] {
	free requires q.mu == 0
	requires isnil(q.q) == q.closed
	modifies q
	shows "lock released" q.mu == 2
	free ensures q.mu == 0
	ensures q.closed == old(q.closed) && isnil(q.q) == q.closed
	ensures ok == (!q.closed && len(deref(old(q.q)).q) > 0)
	ensures ok ==> key == deref(old(q.q)).q[0] && deref(q.q).q == deref(old(q.q)).q[1:]
	ensures !ok ==> key == zeroof(key) && q.q == old(q.q)
}
func SyncQueue.Peek(q)(key, ok) [C20] {
	free requires q.mu == 0
	requires isnil(q.q) == q.closed
	modifies q.mu
	shows "lock released" q.mu == 2
	free ensures q.mu == 0
	ensures ok == (!q.closed && len(deref(q.q).q) > 0)
	ensures key == ite(ok, deref(q.q).q[0], zeroof(key))
}
func SyncQueue.Size(q)(n) [C20] {
	free requires q.mu == 0
	requires isnil(q.q) == q.closed
	modifies q.mu
	shows "lock released" q.mu == 2
	free ensures q.mu == 0
	ensures n == ite(q.closed, 0, len(deref(q.q).q))
}
func SyncQueue.Close(q) [C20] {
	free requires q.mu == 0
	modifies q
	shows "lock released" q.mu == 2
	free ensures q.mu == 0
	ensures q.closed && isnil(q.q)
}
func SyncQueue.Closed(q)(r) [C20] {
	free requires q.mu == 0
	modifies q.mu
	shows "lock released" q.mu == 2
	free ensures q.mu == 0
	ensures r == q.closed
}
