package suites

import "verif/internal/mc"

// All lists the checks.
func All() []*mc.Property {
	return []*mc.Property{propC01(), propC02(), propC03(), propC04(), propC05(), propC06(), propC07(), propC08(), propC09(), propC10(), propC11(), propC12(), propC13(), propC14(), propC15(), propC16(), propC17(), propC18(), propC19(), propC20(), propC21(), propC22(), propC23()}
}
