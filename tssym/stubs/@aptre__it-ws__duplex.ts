export default (socket: any) => socket.duplex
