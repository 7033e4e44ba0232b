export type Source<T> = AsyncIterable<T> | Iterable<T>
export type Sink<S = unknown, R = unknown> = (source: S) => R
export type Duplex<TS = unknown, S = unknown, R = unknown> = { source: TS; sink: Sink<S, R> }
export type Transform<A = unknown, B = A> = (source: A) => B
