package config

// The repository ships without the generated genesis constant (see
// /opt/vp/needs-missing-genesis.txt); the checks supply an empty one through
// 'go build -overlay' and always pass an explicit mock genesis.
const genesisJson = `{}`
