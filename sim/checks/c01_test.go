package zzverif

import (
	"github.com/RenatoGeh/gospn/conc"

	"verif.local/simrt"
	"verif.local/simrt/simruntime"
	"verif.local/simrt/simsync"
)

// C01: the job queue. At most n jobs run at once, n really can, every submitted job runs exactly
// once with its own id, Wait returns only after every submitted job has finished (and makes their
// effects visible), and a submitter is never left waiting while a slot is free.
func init() {
	register(&Check{ID: "C01", Span: 300, Cap: 400000, Run: runC01})
}

func runC01(c *Ctx) {
	simruntime.CPUs = 1 + W.Draw(4)
	arg := W.Draw(6) - 1 // -1..4
	most := 6
	if W.Chance(1, 40) {
		arg, most = 5+W.Draw(130), 50
	}
	q := conc.NewSingleQueue(arg)
	n := arg
	if n <= 0 {
		n = simruntime.CPUs
		c.Cover("default width")
	}
	if q.Allowed() != n {
		c.Fail("width", "a queue made for %d jobs on a machine with %d processors allows %d", arg, simruntime.CPUs, q.Allowed())
	}
	rounds := 1 + W.Draw(3)
	big := most > 6
	for r := 0; r < rounds; r++ {
		producers := 1 + W.Draw(3)
		var per [3]int
		total := 0
		for p := 0; p < producers; p++ {
			per[p] = W.Draw(most)
			total += per[p]
		}
		if big && W.Chance(1, 2) {
			// Enough jobs to fill a wide queue.
			producers, total = 1, n+W.Draw(20)
			per[0] = total
		}
		// In a rendezvous round the first n jobs of a single producer wait for each other: they
		// can only finish if n jobs really do run at once.
		rendezvous := producers == 1 && per[0] >= n && W.Chance(1, 3)
		var meet *simsync.Cond
		arrived := 0
		if rendezvous {
			meet = simsync.NewCond(&simsync.Mutex{})
			c.Cover("rendezvous round")
		}
		var running, maxRun Cell
		var ran, seen Cells
		res := make([]int, total) // written by jobs, read after Wait: Wait must order them
		shared := 0               // unprotected: only for n == 1, where jobs exclude each other
		weights := make([]int, total)
		for i := range weights {
			weights[i] = W.Draw(7)
		}
		job := func(id int) {
			k := running.Add(1)
			if k > maxRun.Get() {
				maxRun.Set(k)
			}
			if k > int64(n) {
				c.Fail("too many jobs", "%d jobs running at once in a queue that allows %d", k, n)
			}
			seen.Add(id, 1)
			if rendezvous && id < n {
				meet.L.Lock()
				arrived++
				meet.Broadcast()
				for arrived < n {
					meet.Wait()
				}
				meet.L.Unlock()
			}
			work(weights[id])
			if n == 1 {
				t := shared
				simrt.Yield()
				shared = t + 1
			}
			res[id] = id*7 + 1
			work(weights[id])
			ran.Add(id, 1)
			running.Add(-1)
		}
		base := 0
		var starts [3]int
		for p := 0; p < producers; p++ {
			starts[p] = base
			base += per[p]
		}
		// The ids are the caller's: any numbers, and not always different ones.
		ids := W.Draw(5)
		run := func(k int) {
			id := k
			switch ids {
			case 0:
				q.Run(job, k)
				return
			case 1:
				id = -1 - k
			case 2:
				id = k << 40
			case 3:
				id = 5
			case 4:
				id = -1
			}
			q.Run(func(got int) {
				if got != id {
					c.Fail("wrong id", "a job was submitted with id %d and given %d", id, got)
				}
				job(k)
			}, id)
		}
		if producers == 1 {
			for i := 0; i < per[0]; i++ {
				run(i)
			}
		} else {
			clients(producers, func(p int) {
				for i := 0; i < per[p]; i++ {
					run(starts[p] + i)
				}
			})
		}
		check := func() {
			for id := 0; id < total; id++ {
				if s := seen.Get(id); s > 1 {
					c.Fail("job repeated", "job %d was started %d times", id, s)
				}
				if ran.Get(id) != 1 || res[id] != id*7+1 {
					c.Fail("wait barrier", "wait returned but job %d of %d had not finished (finished %d times)", id, total, ran.Get(id))
				}
			}
		}
		if W.Chance(1, 4) {
			c.Cover("several waiters")
			clients(2, func(int) {
				q.Wait()
				check()
			})
		} else {
			q.Wait()
			check()
		}
		if n == 1 && shared != total {
			c.Fail("mutual exclusion", "%d of %d increments survived in a queue of width one", shared, total)
		}
		if total > n {
			c.Nontrivial = true
		}
		if maxRun.Get() == int64(n) && n > 1 {
			c.Cover("full width reached")
		}
		c.CoverN("jobs", total)
	}
}
