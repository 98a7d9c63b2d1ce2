// The messages of the synthetic services.
import { createMessageType, ScalarType } from '@aptre/protobuf-es-lite'
export const Req: any = createMessageType({ typeName: 'x.Req', fields: [{ no: 1, name: 'data', kind: 'scalar', T: ScalarType.BYTES }] })
export const Resp: any = createMessageType({ typeName: 'x.Resp', fields: [{ no: 2, name: 'data', kind: 'scalar', T: ScalarType.BYTES }] })
export const Note: any = createMessageType({ typeName: 'x.Note', fields: [{ no: 3, name: 'data', kind: 'scalar', T: ScalarType.BYTES }] })
