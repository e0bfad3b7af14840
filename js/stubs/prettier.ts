export function format(s: string) { return s; }
