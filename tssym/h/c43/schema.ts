// The proto files given to the generator: services with every method kind, with and without common message types,
// with no methods, several in one file, and the echo service of the repository.
import { MethodKind, MethodIdempotency } from '@aptre/protobuf-es-lite'
const msg = (name: string, from = 'msgs'): any => ({ kind: 'message', name, typeName: 'x.' + name, from })
export const Req = msg('Req'), Resp = msg('Resp'), Note = msg('Note')
const M = (name: string, methodKind: number, input: any, output: any, idempotency?: number): any => ({ kind: 'rpc', name, methodKind, input, output, idempotency })
const svc = (pkg: string, name: string, methods: any[]): any => ({ kind: 'service', name, typeName: pkg ? pkg + '.' + name : name, methods })
const kinds = [MethodKind.Unary, MethodKind.ServerStreaming, MethodKind.ClientStreaming, MethodKind.BiDiStreaming]
export const services: any = {
  all: [
    svc('x.all', 'All', kinds.flatMap((k: number, i: number) => [M('A' + i, k, Req, Resp), M('B' + i, k, Note, Note)])),
  ],
  two: [
    svc('x', 'First', [M('Do', MethodKind.Unary, Req, Resp, MethodIdempotency.NoSideEffects), M('do_It', MethodKind.BiDiStreaming, Req, Resp)]),
    svc('x', 'Second', [M('Do', MethodKind.Unary, Req, Note, MethodIdempotency.Idempotent), M('do_It', MethodKind.ServerStreaming, Note, Resp)]),
    svc('x', 'Nothing', []),
    svc('', 'Bare', [M('ToString', MethodKind.ClientStreaming, Note, Req)]),
  ],
  'sub/echo': [
    svc('echo', 'Echoer', [
      M('Echo', MethodKind.Unary, msg('EchoMsg', '@repo/echo/echo.pb.js'), msg('EchoMsg', '@repo/echo/echo.pb.js')),
      M('EchoServerStream', MethodKind.ServerStreaming, msg('EchoMsg', '@repo/echo/echo.pb.js'), msg('EchoMsg', '@repo/echo/echo.pb.js')),
      M('EchoClientStream', MethodKind.ClientStreaming, msg('EchoMsg', '@repo/echo/echo.pb.js'), msg('EchoMsg', '@repo/echo/echo.pb.js')),
      M('EchoBidiStream', MethodKind.BiDiStreaming, msg('EchoMsg', '@repo/echo/echo.pb.js'), msg('EchoMsg', '@repo/echo/echo.pb.js')),
      M('RpcStream', MethodKind.BiDiStreaming, msg('RpcStreamPacket', '@repo/rpcstream/rpcstream.pb.js'), msg('RpcStreamPacket', '@repo/rpcstream/rpcstream.pb.js')),
      M('DoNothing', MethodKind.Unary, msg('Empty', '@aptre/protobuf-es-lite'), msg('Empty', '@aptre/protobuf-es-lite')),
    ]),
  ],
}
export const files: any = Object.entries(services).map(([name, s]) => ({ kind: 'file', name, services: s, messages: [], enums: [] }))
