// The client that keeps large messages in a bucket: the check gives the queue and the bucket (globalThis.__bigQueue).
export default class ExtendedSqsClient {
  constructor(config) { this.config = config; }
  sendMessage(input) { return globalThis.__bigQueue.send(input, this.config); }
  _processReceive(output) { return globalThis.__bigQueue.receive(output, this.config); }
}
