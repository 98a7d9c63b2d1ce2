export const createEcmaScriptPlugin: any = (x: any) => x
