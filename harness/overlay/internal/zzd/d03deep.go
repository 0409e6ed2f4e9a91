package zzd

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

//gosym:bounds 4 groups with every acyclic graph of include rules (thorough: or of exclude rules), listed in the order of their names or against it, bare or each managed by the next; an include or exclude rule between any two of them
func VP_D03_four() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 4
	rev := nd.Bool("reverse")
	kind := "INCLUDE:"
	if nd.Thorough() && nd.Bool("exclude") {
		kind = "EXCLUDE:"
	}
	at := func(i int) string {
		if rev {
			return gn[n-1-i]
		}
		return gn[i]
	}
	managed := nd.Bool("managed")
	rules := make([][]string, n)
	for i := 0; i < n; i++ {
		for d := 1; d < n; d++ {
			j := i + d
			if rev {
				j = n - d
				if j <= i {
					continue
				}
			}
			if j < n && nd.Bool("rule") {
				rules[i] = append(rules[i], kind+at(j))
			}
		}
	}
	for i := 0; i < n; i++ {
		g := &pb.Group{Name: env.S(at(i)), Number: env.I(int32(i + 1)), Expansions: rules[i]}
		if managed {
			g.ManagedBy, g.DisplayName, g.Capabilities = env.S(at((i+1)%n)), env.S("d"), env.AllCaps
		}
		kv.PutGroup(g)
	}
	w.Load()
	snap := kv.Snapshot()
	// only rules against the direction of the graph can make a cycle
	i := nd.Pick("from", n)
	j := nd.Pick("to", n)
	linkGroups(w, kv, snap, at(i), at(j))
}

//gosym:bounds a chain of 3, 4, 5, 8 or 13 (thorough also 2, 6, 24) groups each with a rule for the next, all of one kind or alternating; an include or exclude rule from any of the first two or last two to any other (in long ones to the first or last three)
func VP_D03_chain() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	names := serial("c", 24)
	sizes := []int{3, 4, 5, 8, 13}
	if nd.Thorough() {
		sizes = append(sizes, 2, 6, 24)
	}
	n := sizes[nd.Pick("n", len(sizes))]
	kind := nd.Pick("kind", 3)
	for i := 0; i < n; i++ {
		var r []string
		if i+1 < n {
			if kind == 0 || kind == 2 && i%2 == 0 {
				r = []string{"INCLUDE:" + names[i+1]}
			} else {
				r = []string{"EXCLUDE:" + names[i+1]}
			}
		}
		kv.PutGroup(&pb.Group{Name: env.S(names[i]), Number: env.I(int32(i + 1)), Expansions: r})
	}
	w.Load()
	to := nd.Pick("to", n)
	nd.Assume(n <= 8 || to < 3 || to >= n-3)
	linkGroups(w, kv, kv.Snapshot(), names[[]int{n - 1, n - 2, 0, 1}[nd.Pick("from", 4)]], names[to])
}
