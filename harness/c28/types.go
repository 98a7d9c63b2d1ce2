package c28

import "github.com/aperturerobotics/starpc/zz_verif/hx"

// In and Out are the messages of the generated services.
type In struct{ hx.Msg }

// Out is the other message.
type Out struct{ hx.Msg }
