// Modules which the checks do not use.
export const defaultLogger = () => ({ forComponent: () => () => {} })
export default function () {
  throw new Error('not available here')
}
