// Environment of a Lambda function: import before the handlers. The secret holds the database's address and whatever
// the check adds to `secret`; it is the one every holder reads.
import { SecretsManagerClient, SecretsManager } from "@aws-sdk/client-secrets-manager";
Object.assign(process.env, { AWS_REGION: "eu-west-1", AWS_ACCESS_KEY_ID: "x", AWS_SECRET_ACCESS_KEY: "x", SECRET_ID: "vt", BUCKET_NAME: "vt-bucket", TZ: "UTC" });
export const secret = { username: "u", password: "p", host: "", ro_host: "" };
export const secretFault = { next: undefined };
const answer = async () => { if (secretFault.next) throw secretFault.next; return { SecretString: JSON.stringify(secret) }; };
SecretsManagerClient.prototype.send = answer;
SecretsManager.prototype.send = answer;
export function useDatabase(pg) { secret.host = secret.ro_host = `127.0.0.1:${pg.port}/d`; }
