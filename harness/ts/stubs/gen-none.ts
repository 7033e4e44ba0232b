export const services: any[] = []
