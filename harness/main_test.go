package harness

import (
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"testing"
)

var (
	fProp  = flag.String("prop", "", "property")
	fPhase = flag.String("phase", "", "phase")
	fTier  = flag.String("tier", "quick", "tier")
	fSeed  = flag.Uint64("seed", 1, "seed")
	fCase  = flag.Int("case", -1, "single case")
	fOut   = flag.String("out", "", "report file")
	fProg  = flag.String("progress", "", "progress file")
	fList  = flag.Bool("listphases", false, "list")
)

func TestPhase(t *testing.T) {
	if *fList {
		for _, p := range phases {
			fmt.Printf("PHASE %s %s %v\n", p.Prop, p.Name, p.Race)
		}
		return
	}
	log.SetOutput(io.Discard)
	for _, p := range phases {
		if p.Prop == *fProp && p.Name == *fPhase {
			c := &Ctx{T: t, P: p, Tier: *fTier, Seed: *fSeed, Only: *fCase, out: *fOut, start0: realSeconds(),
				distinct: map[uint64]struct{}{}, counts: map[string]int64{}}
			c.caseDesc.Store("")
			if *fProg != "" {
				f, err := os.Create(*fProg)
				if err != nil {
					t.Fatal(err)
				}
				c.prog = f
			}
			c.runPhase()
			return
		}
	}
	t.Fatal("no such phase")
}
