package props

import (
	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/session"
)

// parseState reads a session state through its serialization.
func parseState(st *session.State) *v1.SessionStructure {
	var ss v1.SessionStructure
	if st == nil {
		return &ss
	}
	must0(proto.Unmarshal(st.Bytes(), &ss))
	return &ss
}
