export const defaultLogger = () => ({ forComponent: () => () => {} })
