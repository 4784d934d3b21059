package sync

// Pool of a simulation build: it never keeps anything. The standard library's
// use of pools must not depend on processors, the collector or chance, nor
// order the callers of the code under test.
type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
