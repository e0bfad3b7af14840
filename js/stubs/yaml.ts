import { load } from "js-yaml"; export const parse = (s: string): any => load(s);
