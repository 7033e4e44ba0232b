export enum ScalarType { BYTES = 12, UINT32 = 13, STRING = 9 }
export enum MethodKind { Unary, ServerStreaming, ClientStreaming, BiDiStreaming }
export enum MethodIdempotency { NoSideEffects = 1, Idempotent = 2 }
export type PartialFieldInfo = any
export type Message<T> = { [P in keyof T]?: T[P] }
export interface MessageType<T> {
  create(m?: Message<T>): T
  toBinary(m: T): Uint8Array
  fromBinary(b: Uint8Array): T
}
export function createMessageType<T>(p: any): MessageType<T>
export interface Empty {}
export const Empty: MessageType<Empty>
