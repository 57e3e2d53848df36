package harness

// A request with the id of one that is ending at that moment.

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C10", "again", "requests sent again under their id at the instant the first attempt is given up", c10again)
}

func c10again(c *Ctx) {
	workers := 2 * runtime.GOMAXPROCS(0)
	rounds := 4000
	c.Cases("again", c.N(8, 200), func(i int, r *rand.Rand) {
		var table transport.RequestTable // one for all, as in a connection
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			rr := rand.New(rand.NewPCG(r.Uint64(), uint64(w)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				g, err := transport.NewMessageIdGenerator()
				if err != nil {
					panic(setupError{err})
				}
				var first, second, failed int64
				for k := 0; k < rounds && !c.Failed(); k++ {
					m := &transport.Message{}
					m.Headers.Id = g.Next()
					ctx, cancel := context.WithCancel(bg)
					a := table.Put(m)
					ended := make(chan error, 1)
					spin := rr.IntN(60)
					go func() {
						_, err := a.Wait(ctx)
						ended <- err
					}()
					if k%3 == 0 {
						go cancel()
					} else {
						cancel()
					}
					for q := 0; q < spin; q++ {
						runtime.KeepAlive(q)
					}
					if k%16 == 0 {
						runtime.Gosched()
					}
					b := table.Put(m)
					if err := <-ended; err == nil {
						c.Violation("a request that was given up and never answered succeeds")
					} else if err == context.Canceled {
						first++
					} else {
						failed++ // it made way for the other one
					}
					reply := &transport.ByteArrayMessage{}
					reply.Headers.RelatesTo = m.Headers.Id
					if !table.Feed(reply) {
						c.Violation("the reply to a request is not taken: an earlier attempt under its id, given up as it was sent, took it along (round %d)", k)
					} else if v, err := b.Wait(bg); err != nil || v != reply {
						c.Violation("a request that was answered ends with %v, %v after an earlier attempt under its id was given up (round %d)", v, err, k)
					} else {
						second++
					}
					cancel()
				}
				c.Count("given_up", first)
				c.Count("replaced", failed)
				c.Count("answered", second)
			}()
		}
		wg.Wait()
		c.Saw(fmt.Sprint(i))
		c.StopIfFailed(1)
	})
	c.reached("given_up")
	c.reached("answered")
}
